// P32: execution contexts over third-party executors (TBB, Taskflow, libdispatch): the executor is a stand-in that
// runs every task on a thread of its own; (Boost.)ASIO's own thread pool
// FLAGS: -I@V@/harness/standins -D_GLIBCXX_USE_TBB_PAR_BACKEND=0 -DH_FAULTS=1
// CONFIGURE: include/exec/asio/asio_config.hpp.in exec/asio/asio_config.hpp STDEXEC_ASIO_USES_BOOST
// PARTS: 4
#include "common.hpp"
#if MC_PART == 0
#  include <exec/tbb/tbb_thread_pool.hpp>
using pool_t = exec::tbb::tbb_thread_pool;
#  define NAME(x) tbb_##x
#elif MC_PART == 1
#  include <exec/taskflow/taskflow_thread_pool.hpp>
using pool_t = exec::taskflow::taskflow_thread_pool;
#  define NAME(x) taskflow_##x
#elif MC_PART == 3
#  include "standins/standin.hpp"
#  include <exec/asio/asio_thread_pool.hpp>
using pool_t = exec::asio::asio_thread_pool;
#  define NAME(x) asio_pool_##x
#  define ASIO 1
#else
#  include <exec/libdispatch_queue.hpp>
#  define NAME(x) libdispatch_##x
#  define LIBDISPATCH 1
struct pool_t : exec::libdispatch_queue
{
  explicit pool_t(int = 0) {}
};
#endif
#ifdef ASIO
// a pool of ASIO's own, under the checker too: smaller bounds
#  define FULL {.preempt = 2}, {.preempt = 3}
#  define THREE {.preempt = 0}, {.preempt = 1}
#  define TWO {.preempt = 1}, {.preempt = 2}
#else
#  define FULL {.preempt = -1}
#  define THREE {.preempt = 3}, {.preempt = -1}
#  define TWO {.preempt = 2}, {.preempt = 3}
#endif
#define SCEN(N, ...) MC_SCENARIO(P32, N, __VA_ARGS__)
using h::tv;

namespace
{
  constexpr int MAXN = 6;
#ifdef ASIO
  // ASIO's threads: neither the main thread nor one of the harness
  bool on_pool(int ctx, int tid) { return ctx == 0 && tid != 0; }
#else
  bool on_pool(int ctx, int) { return ctx == 50; }
#endif
#ifdef ASIO
  // ASIO's pool may not be destroyed while a thread that is not its own still submits to it
  h::mode pick_mode() { return h::INLINE; }
#else
  h::mode pick_mode() { return h::pick_mode(); }
#endif
  bool on_pool(h::rec const & r) { return on_pool(r.ctx, r.tid); }
  bool on_pool() { return on_pool(h::ctx_id, mc::self()); }
  struct visits
  {
    int  n[MAXN] = {};
    bool all(int shape) const
    {
      for (int i = 0; i < MAXN; ++i)
        if (n[i] != (i < shape ? 1 : 0)) return false;
      return true;
    }
  };
  // a predecessor which completes on the pool (in one of the ways possible), forwarding what `s` completed with
  template <class P, class S>
  auto on_it(P& p, S s) { return ex::continues_on(std::move(s), p.get_scheduler()); }
}  // namespace

// a scheduled operation completes once, on the executor; the operation is destroyed by its receiver
static void values()
{
  pool_t  p(2);
  h::rec  a, b;
  h::gate g(2);
  int     flag = 1;
  h::go(ex::schedule(p.get_scheduler()) | ex::then([&]() noexcept { MC_CHECK(flag == 1); return 1; }), a, g);
  h::go(ex::schedule(p.get_scheduler()) | ex::then([&]() noexcept { return 2; }), b, g);
  g.wait();
  MC_CHECK(a.is(h::VAL, 1) && b.is(h::VAL, 2) && on_pool(a) && on_pool(b));
#ifndef ASIO
  MC_CHECK(standin::submitted() == 2);
#endif
}
SCEN(NAME(values), FULL) { values(); }

// the stop token is honoured when it is known before the task runs, and nothing is lost either way
SCEN(NAME(stop), FULL)
{
  pool_t                 p(1);
  ex::inplace_stop_source src;
  h::rec                 r;
  h::gate                g;
  bool early = mc::choose(2);
  if (early) src.request_stop();
  auto* b = h::make(ex::schedule(p.get_scheduler()), r, h::stop_env{src.get_token()});
  b->link.then = [](void* x) noexcept { static_cast<h::gate*>(x)->done(); };
  b->link.then_arg = &g;
  b->start();
  if (!early) src.request_stop();
  g.wait();
  MC_CHECK(early ? r.is(h::STOP) : (r.is(h::STOP) || r.is(h::VAL)));
  MC_CHECK(on_pool(r));
  mc::outcome("%d%s", early, r.str().c_str());
}

// two stop requests for two operations, each stops its own only
SCEN(NAME(stop_one_of_two), FULL)
{
  pool_t                  p(2);
  ex::inplace_stop_source s0, s1;
  h::rec                  r0, r1;
  h::gate                 g(2);
  s0.request_stop();
  h::go(ex::schedule(p.get_scheduler()), r0, g, h::stop_env{s0.get_token()});
  h::go(ex::schedule(p.get_scheduler()), r1, g, h::stop_env{s1.get_token()});
  g.wait();
  MC_CHECK(r0.is(h::STOP) && r1.is(h::VAL));
}

// started operations of many lifetimes: a completion that destroys its operation and starts another on the pool
SCEN(NAME(restart), FULL)
{
  pool_t  p(2);
  h::rec  a, b;
  h::gate g;
  struct ctx_t { pool_t* p; h::rec* b; h::gate* g; } c{&p, &b, &g};
  auto* o = h::make(ex::schedule(p.get_scheduler()), a);
  o->link.then = [](void* x) noexcept {
    auto* c = static_cast<ctx_t*>(x);
    h::go(ex::schedule(c->p->get_scheduler()), *c->b, *c->g);
  };
  o->link.then_arg = &c;
  o->start();
  g.wait();
  MC_CHECK(a.is(h::VAL) && b.is(h::VAL));
}

// everything the scheduler promises about itself
SCEN(NAME(queries), FULL)
{
  pool_t p(2), q(2);
  auto   s = p.get_scheduler();
  static_assert(ex::scheduler<decltype(s)>);
  MC_CHECK(s == p.get_scheduler());
#ifndef LIBDISPATCH
  MC_CHECK(s != q.get_scheduler());
#endif
  MC_CHECK(ex::get_forward_progress_guarantee(s) == ex::forward_progress_guarantee::parallel);
  MC_CHECK(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(ex::schedule(s))) == s);
  MC_CHECK(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(ex::continues_on(ex::just(), s)), ex::env<>{}) == s);
}

// starts_on / continues_on / on over the pool: every completion of the child, in both directions
SCEN(NAME(transfers), FULL)
{
  pool_t p(2);
  auto   c = h::pick_chan();
  auto   m = pick_mode();
  int    started = 0, at = -1;
  h::rec r;
  h::gate g;
  h::src s{c, 5, m, &started, 3};
  int    k = mc::choose(2);
  if (k == 0) h::go(ex::continues_on(s, p.get_scheduler()), r, g);
  else h::go(ex::starts_on(p.get_scheduler(), ex::just() | ex::let_value([&, s] { at = on_pool(); return s; })), r, g);
  g.wait();
  MC_CHECK(started == 1);
  MC_CHECK(c == h::VAL ? r.is(h::VAL, 5) : c == h::ERR ? r.is(h::ERR, 5) : r.is(h::STOP));
  if (k == 0) MC_CHECK(on_pool(r));
  if (k == 1) { MC_CHECK(at == 1); MC_CHECK(m == h::REMOTE ? r.ctx == 3 : on_pool(r)); }
  mc::outcome("%d%d%d", c, m, k);
}

// ------------------------------------------------------------------------------------------------ bulk
// KIND 0: bulk, 1: bulk_chunked, 2: bulk_unchunked.  `throwing`: bit mask of throwing indices.
template <int KIND, bool NX>
static void bulk_on(int conc, int shape, unsigned throwing)
{
  visits  v;
  int     done[MAXN] = {};
  h::rec  r;
  h::gate g;
  pool_t  p(conc);
  auto one = [&v, &done, throwing](int i, tv& x) noexcept(NX) {
    if (i < 0 || i >= MAXN) mc::fail("bulk visited index %d", i);
    MC_CHECK(x.get() == 5);
    MC_CHECK(on_pool());
    ++v.n[i];  // plain: visible to the receiver only if the completion synchronizes with every agent
    if constexpr (!NX)
      if (throwing >> i & 1) { h::quiet q; throw h::boom{i}; }
  };
  auto chunk = [one](int b, int e, tv& x) noexcept(NX) { if (b >= e) mc::fail("empty chunk"); for (int i = b; i < e; ++i) one(i, x); };
  auto s = on_it(p, ex::just(tv(5)));
  if constexpr (KIND == 0) h::go(ex::bulk(std::move(s), ex::par, shape, one), r, g);
  if constexpr (KIND == 1) h::go(ex::bulk_chunked(std::move(s), ex::par, shape, chunk), r, g);
  if constexpr (KIND == 2) h::go(ex::bulk_unchunked(std::move(s), ex::par, shape, one), r, g);
  g.wait();
  if (!throwing)
  {
    MC_CHECK(r.is(h::VAL, 5) && v.all(shape));
  }
  else
  {
    MC_CHECK(r.n == 1 && r.ch == h::ERR && r.nv == 1);
    long e = r.v[0] - 1000;
    MC_CHECK(e >= 0 && e < shape && (throwing >> e & 1));
    for (int i = 0; i < MAXN; ++i) MC_CHECK(v.n[i] <= (i < shape ? 1 : 0));
    MC_CHECK(v.n[e] == 1);
  }
  MC_CHECK(on_pool(r));
  mc::outcome("%d%s", shape, r.str().c_str());
}
template <int KIND, bool NX>
static void bulk_any(int maxshape, int maxconc)
{
  int shape = mc::choose(maxshape + 1);
  int conc = 1 + mc::choose(maxconc);
  bulk_on<KIND, NX>(conc, shape, NX ? 0 : mc::choose(1u << shape));
}
SCEN(NAME(bulk), FULL) { bulk_any<0, false>(2, 2); }
SCEN(NAME(bulk_noexcept), FULL) { bulk_any<0, true>(3, 2); }
SCEN(NAME(unchunked), FULL) { bulk_any<2, false>(2, 2); }
SCEN(NAME(bulk_3), THREE)
{
  bulk_on<0, false>(3, 3, mc::choose(8));
}
#ifndef LIBDISPATCH
SCEN(NAME(chunked), FULL) { bulk_any<1, false>(2, 2); }
SCEN(NAME(chunked_noexcept), FULL) { bulk_any<1, true>(3, 2); }
SCEN(NAME(chunked_shapes), {.preempt = 0})
{
  int shape = mc::choose(MAXN + 1);
  bulk_on<1, false>(1 + mc::choose(3), shape, mc::choose(2) ? 0 : 1u << shape >> 1);
}
#endif

// predecessors which do not complete with a value are passed through; no function call happens
SCEN(NAME(bulk_channels), FULL)
{
  pool_t  p(2);
  auto    c = mc::choose(2) ? h::ERR : h::STOP;
  auto    m = pick_mode();
  int     calls = 0;
  h::rec  r;
  h::gate g;
  h::go(ex::bulk(on_it(p, h::src{c, 5, m}), ex::par, 2, [&](int, tv&) { ++calls; }), r, g);
  g.wait();
  MC_CHECK(calls == 0);
  MC_CHECK(c == h::ERR ? r.is(h::ERR, 5) : r.is(h::STOP));
}

// a value whose k-th move fails: one completion, no call after the failure, nothing leaked
static void value_fault(int shape)
{
  pool_t  p(2);
  int     calls[2] = {};
  h::rec  r;
  h::gate g;
  auto* b = h::make(ex::bulk(on_it(p, ex::just(tv(5))), ex::par, shape, [&](int i, tv& x) noexcept { ++calls[i]; MC_CHECK(x.get() == 5); }), r);
  b->link.then = [](void* x) noexcept { static_cast<h::gate*>(x)->done(); };
  b->link.then_arg = &g;
  int k = 1 + mc::choose(6, "fault");
  h::throw_at = k;
  b->start();
  g.wait();
  bool fired = h::throw_at == 0;
  h::throw_at = 0;
  MC_CHECK(fired ? r.is(h::ERR, 1077) : r.is(h::VAL, 5));
  int n = calls[0] + calls[1];
  MC_CHECK(fired ? n == 0 || n == shape : n == shape);
  mc::outcome("%d%d%d", k, fired, n);
}
SCEN(NAME(bulk_value_fault), FULL) { value_fault(2); }
SCEN(NAME(bulk_value_fault_empty), FULL) { value_fault(0); }

// two bulk operations on one pool do not disturb each other
SCEN(NAME(two_bulks), TWO)
{
  pool_t  p(2);
  int     a[2] = {}, b[2] = {};
  h::rec  ra, rb;
  h::gate g(2);
  h::go(ex::bulk(on_it(p, ex::just(tv(1))), ex::par, 2, [&](int i, tv& x) noexcept { ++a[i]; *x.p += 0; }), ra, g);
  h::go(ex::bulk(on_it(p, ex::just(tv(2))), ex::par, 2, [&](int i, tv& x) { ++b[i]; if (i == 1) { h::quiet q; throw h::boom{i}; } }), rb, g);
  g.wait();
  MC_CHECK(ra.is(h::VAL, 1) && a[0] == 1 && a[1] == 1 && rb.is(h::ERR, 1001));
}

// the receiver's environment reaches the bulk's predecessor
SCEN(NAME(bulk_env), FULL)
{
  pool_t                  p(1);
  ex::inplace_stop_source src;
  h::rec                  r;
  h::gate                 g;
  src.request_stop();
  h::go(ex::bulk(ex::schedule(p.get_scheduler()), ex::par, 2, [](int) noexcept { mc::fail("called"); }), r, g, h::stop_env{src.get_token()});
  g.wait();
  MC_CHECK(r.is(h::STOP) && on_pool(r));
}
