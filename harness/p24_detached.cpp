// P24: fire-and-forget: start_detached, execute, just_from's submit, start_now, fork_join
#include "common.hpp"
#include <exec/async_scope.hpp>
#include <exec/execute.hpp>
#include <exec/fork_join.hpp>
#include <exec/just_from.hpp>
#include <exec/start_detached.hpp>
#include <exec/start_now.hpp>
using h::tv;

namespace
{
  // A sender of (tv) / stopped that counts constructions, destructions, starts and completions of its operations in
  // plain (racing accesses are violations) per-operation cells living in the scenario.
  struct life
  {
    int made = 0, gone = 0, started = 0, completed = 0;
    bool clean() const { return made == gone; }
  };
  struct fire
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures<ex::set_value_t(tv), ex::set_stopped_t()>;
    h::chan ch;
    h::mode m;
    life*   l;
    template <class R>
    struct op
    {
      R r; h::chan ch; h::mode m; life* l; tv payload{3};
      op(R rr, fire const & f) : r(std::move(rr)), ch(f.ch), m(f.m), l(f.l) { ++l->made; }
      op(op&&) = delete;
      ~op() { if (l->started && !l->completed) mc::fail("operation destroyed while it was still running"); ++l->gone; }
      void finish() noexcept
      {
        MC_CHECK(payload.get() == 3);
        ++l->completed;
        if (ch == h::VAL) ex::set_value(std::move(r), tv(9)); else ex::set_stopped(std::move(r));
      }
      void start() & noexcept
      {
        ++l->started;
        if (m == h::INLINE) finish();
        else std::thread([this] { finish(); }).detach();
      }
    };
    template <class R> auto connect(R r) const -> op<R> { return op<R>(std::move(r), *this); }
  };
  void once(life const & l) { MC_CHECK(l.made == 1 && l.gone == 1 && l.started == 1 && l.completed == 1); }

  // allocator that counts and can refuse
  struct astat { int allocs = 0, frees = 0; bool fail = false; };
  template <class T>
  struct alloc
  {
    using value_type = T;
    astat* s;
    explicit alloc(astat* p) : s(p) {}
    template <class U> alloc(alloc<U> const & o) : s(o.s) {}
    T* allocate(std::size_t n)
    {
      if (s->fail) throw std::bad_alloc{};
      ++s->allocs;
      return std::allocator<T>{}.allocate(n);
    }
    void deallocate(T* p, std::size_t n) { ++s->frees; std::allocator<T>{}.deallocate(p, n); }
    template <class U> bool operator==(alloc<U> const & o) const { return s == o.s; }
  };
  struct alloc_env
  {
    astat* s;
    alloc<char> query(ex::get_allocator_t) const noexcept { return alloc<char>{s}; }
  };
  h::chan val_or_stop() { return mc::choose(2, "channel") ? h::VAL : h::STOP; }
}  // namespace

MC_SCENARIO(P24, detached, {.preempt = -1})
{
  life l;
  exec::start_detached(fire{val_or_stop(), h::pick_mode(), &l});
  mc::join_all();
  once(l);
}
MC_SCENARIO(P24, detached_alloc, {.preempt = -1})
{
  life  l;
  astat a;
  exec::start_detached(fire{val_or_stop(), h::pick_mode(), &l}, alloc_env{&a});
  mc::join_all();
  once(l);
  MC_CHECK(a.allocs == 1 && a.frees == 1);
}
// through adaptors that complete asynchronously, and several at once
MC_SCENARIO(P24, detached_pipeline, {.preempt = -1})
{
  life l1, l2;
  int  n = 0;
  exec::start_detached(ex::starts_on(h::thread_sched{1}, fire{val_or_stop(), h::pick_mode(), &l1}) | ex::then([&](auto&&...) noexcept { ++n; })
                       | ex::upon_error([](auto&&) noexcept {}));
  exec::start_detached(fire{h::VAL, h::pick_mode(), &l2} | ex::let_value([](tv& x) noexcept { return ex::just(int(x.get())); }) | ex::upon_error([](auto&&) noexcept {}));
  mc::join_all();
  once(l1);
  once(l2);
  MC_CHECK(n <= 1);
}
// a stop request that reaches detached work
MC_SCENARIO(P24, detached_stop, {.preempt = -1})
{
  ex::inplace_stop_source src;
  int stops = 0, started = 0, done = 0;
  for (auto& x: h::ssrc_state) x.store(0, std::memory_order_relaxed);
  std::thread t([&] { src.request_stop(); });
  exec::start_detached(h::ssrc(mc::choose(2) ? h::VAL : h::NONE, 1, 0, &stops, &started, &done), h::stop_env{src.get_token()});
  t.join();
  mc::join_all();
  MC_CHECK(started == 1 && done == 1 && stops <= 1);
}
// failures before anything was started are thrown to the caller and release everything
namespace
{
  struct bad_connect
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures<ex::set_value_t()>;
    tv x{1};
    template <class R> struct op { R r; void start() & noexcept { mc::fail("started"); } };
    template <class R> auto connect(R) const -> op<R> { throw h::boom{4}; }
  };
}  // namespace
MC_SCENARIO(P24, detached_failures, {.preempt = -1})
{
  life  l;
  astat a;
  bool  thrown = false;
  switch (mc::choose(4))
  {
  case 0:
    try { exec::start_detached(bad_connect{}); } catch (h::boom&) { thrown = true; }
    break;
  case 1:
    try { exec::start_detached(bad_connect{}, alloc_env{&a}); } catch (h::boom&) { thrown = true; }
    MC_CHECK(a.allocs == 1 && a.frees == 1);
    break;
  case 2:
    a.fail = true;
    try { exec::start_detached(fire{h::VAL, h::INLINE, &l}, alloc_env{&a}); } catch (std::bad_alloc&) { thrown = true; }
    MC_CHECK(l.started == 0 && l.clean() && a.allocs == 0);
    break;
  default:
    mc::fail_alloc(1);
    try { exec::start_detached(fire{h::VAL, h::INLINE, &l}); } catch (std::bad_alloc&) { thrown = true; }
    mc::fail_alloc(0);
    MC_CHECK(l.started == 0 && l.clean());
  }
  MC_CHECK(thrown);
}
MC_SCENARIO(P24, execute, {.preempt = -1})
{
  int n = 0, who = 0;
  h::ctx_id = 0;
  exec::__execute(h::thread_sched{5}, [&, p = tv(4)]() noexcept { MC_CHECK(p.get() == 4); ++n; who = h::ctx_id; });
  mc::join_all();
  MC_CHECK(n == 1 && who == 5);
}
// senders with a submit() member
MC_SCENARIO(P24, submit, {.preempt = -1})
{
  int n = 0, v = 0;
  tv  p(6);
  exec::start_detached(exec::just_from([&, p](auto sink) noexcept { ++n; v = p.get(); return sink(tv(1)); }));
  exec::start_detached(exec::just_stopped_from([&, p](auto sink) noexcept { ++n; return sink(); }));
  h::rec r[3];
  h::go(exec::just_from([&, p](auto sink) noexcept { ++n; return sink(tv(p.get() + 1), 5); }), r[0]);
  h::go(ex::just() | ex::let_value([&] { return exec::just_from([&, p](auto sink) noexcept { ++n; return sink(tv(p.get() + 1), 5); }); }), r[1]);
  h::go(ex::just() | ex::let_value([&] { return exec::just_error_from([&, p](auto sink) noexcept { ++n; return sink(3); }); }), r[2]);
  MC_CHECK(n == 5 && v == 6 && r[0].is(h::VAL, 7, 5) && r[1].is(h::VAL, 7, 5) && r[2].is(h::ERR, 3));
}

// ------------------------------------------------------------------------------------------ start_now
MC_SCENARIO(P24, start_now_join, {.preempt = -1})
{
  life    l[2];
  h::rec  r;
  h::gate g(1);
  auto    run = [&] {
    exec::async_scope scope;
    {
      auto now = exec::start_now(scope, fire{val_or_stop(), h::pick_mode(), &l[0]}, fire{h::VAL, h::pick_mode(), &l[1]});
      h::go(now.async_wait(), r, g);
      g.wait();
      MC_CHECK(l[0].completed == 1 && l[1].completed == 1);  // the join synchronizes with both
    }
    ex::sync_wait(scope.on_empty());
  };
  run();
  MC_CHECK(r.is(h::VAL));
  once(l[0]);
  once(l[1]);
}
// the join destroys the storage at once
MC_SCENARIO(P24, start_now_destroy, {.preempt = -1})
{
  life l[1];
  h::rec r;
  h::gate g(1);
  exec::async_scope scope;
  using S = decltype(exec::start_now(scope, fire{h::VAL, h::REMOTE, &l[0]}));
  struct dyn { S s; explicit dyn(exec::async_scope& sc, h::chan c, h::mode m, life* l) : s(exec::start_now(sc, fire{c, m, l})) {} };
  auto* d = new dyn(scope, val_or_stop(), h::pick_mode(), &l[0]);
  struct ctx { dyn* d; h::gate* g; } k{d, &g};
  auto* b = h::make(d->s.async_wait(), r);
  b->link.then = [](void* p) noexcept { auto* k = static_cast<ctx*>(p); delete k->d; k->g->done(); };
  b->link.then_arg = &k;
  b->start();
  g.wait();
  ex::sync_wait(scope.on_empty());
  MC_CHECK(r.is(h::VAL));
  once(l[0]);
}
// stop requests through the storage. (exec::async_scope replaces the stop token by its own, so a scope that does not.)
namespace
{
  struct plain_scope
  {
    template <class S> auto nest(S&& s) -> std::decay_t<S> { return static_cast<S&&>(s); }
  };
}  // namespace
MC_SCENARIO(P24, start_now_stop, {.preempt = 4}, {.preempt = 6})
{
  h::rec r;
  h::gate g(1);
  int stops = 0, started = 0, done = 0;
  for (auto& x: h::ssrc_state) x.store(0, std::memory_order_relaxed);
  auto nofail = [](auto s) { return ex::upon_error(std::move(s), [](int) noexcept { return tv(0); }); };
  bool never = mc::choose(2);
  {
    plain_scope scope;
    auto now = exec::start_now(scope, nofail(h::ssrc(never ? h::NONE : h::VAL, 1, 0, &stops, &started, &done)));
    MC_CHECK(now.get_token().stop_possible());
    std::thread t([&] { now.request_stop(); });
    h::go(now.async_wait(), r, g);
    g.wait();
    MC_CHECK(done == 1);
    t.join();
    MC_CHECK(now.get_token().stop_requested());
  }
  MC_CHECK(r.is(h::VAL) && started == 1 && stops <= 1 && (!never || stops == 1));
}
// no senders at all; and a scope that was stopped before
MC_SCENARIO(P24, start_now_edge, {.preempt = -1})
{
  h::rec r[2];
  exec::async_scope scope;
  {
    auto now = exec::start_now(scope);
    h::go(now.async_wait(), r[0]);
  }
  MC_CHECK(r[0].is(h::VAL));
  life l;
  {
    auto now = exec::start_now(scope, fire{h::VAL, h::INLINE, &l});
    h::go(now.async_wait(), r[1]);
  }
  MC_CHECK(r[1].is(h::VAL));
  once(l);
  ex::sync_wait(scope.on_empty());
}

// ------------------------------------------------------------------------------------------ fork_join
namespace
{
  // a closure that hops to its own thread and then reads the shared value
  auto hop(int id, int* sum)
  {
    return ex::let_value([id, sum](tv const & x) {
      return ex::schedule(h::thread_sched{id}) | ex::then([&x, id, sum] { *sum += x.get(); return x.get() + id; });
    });
  }
}  // namespace
MC_SCENARIO(P24, fork_join_values, {.preempt = -1})
{
  h::rec r;
  int    started = 0, a = 0, b = 0;
  h::go(exec::fork_join(h::src{h::VAL, 10, h::pick_mode(), &started}, hop(1, &a), hop(2, &b)), r);
  mc::join_all();
  MC_CHECK(started == 1 && a == 10 && b == 10 && r.is(h::VAL, 11, 12));
}
MC_SCENARIO(P24, fork_join_channels, {.preempt = -1})
{
  h::rec  r;
  int     started = 0, ran[2] = {};
  h::chan c = h::pick_chan();
  unsigned fail = mc::choose(3, "branch");
  auto br = [&](unsigned i) { return ex::then([&, i](tv const & x) { ++ran[i]; if (fail == i) throw h::boom{int(i)}; return x.get(); }); };
  h::go(exec::fork_join(h::src{c, 10, h::pick_mode(), &started}, br(0), br(1)), r);
  mc::join_all();
  MC_CHECK(started == 1);
  if (c == h::VAL)
  {
    MC_CHECK(ran[0] == 1 && ran[1] == 1);
    if (fail < 2) MC_CHECK(r.is(h::ERR, 1000 + fail)); else MC_CHECK(r.is(h::VAL, 10, 10));
  }
  else
  {
    MC_CHECK(ran[0] == 0 && ran[1] == 0);
    if (c == h::ERR) MC_CHECK(r.is(h::ERR, 10)); else MC_CHECK(r.is(h::STOP));
  }
}
// never started; storing the predecessor's value throws
MC_SCENARIO(P24, fork_join_edges, {.preempt = -1})
{
  h::rec r;
  int    n = 0;
  auto   mk = [&](auto s) { return exec::fork_join(std::move(s), ex::then([&](auto const & x) { ++n; return x.get(); })); };
  if (mc::choose(2))
  {
    auto* b = h::make(mk(h::src{h::VAL, 1}), r, h::no_env{}, false);
    delete b;
    MC_CHECK(r.n == 0 && n == 0);
  }
  else
  {
    struct thrower { tv x{1}; thrower() = default; thrower(thrower const & o) : x(o.x) { throw h::boom{5}; } int get() const { return x.get(); } };
    auto w = h::make_custom<ex::set_value_t(thrower const &)>([](auto& r) noexcept { thrower t; ex::set_value(std::move(r), std::as_const(t)); }, h::pick_mode());
    h::go(mk(w), r);
    mc::join_all();
    MC_CHECK(r.is(h::ERR, 1005) && n == 0);
  }
}
// a stop request while the branches run
MC_SCENARIO(P24, fork_join_stop, {.preempt = 4}, {.preempt = 6})
{
  h::rec  r;
  h::gate g(1);
  int     stops = 0, started = 0;
  for (auto& x: h::ssrc_state) x.store(0, std::memory_order_relaxed);
  ex::inplace_stop_source src;
  std::thread t([&] { src.request_stop(); });
  h::go(exec::fork_join(h::src{h::VAL, 3, h::pick_mode()}, ex::let_value([&](tv const &) { return h::ssrc(h::NONE, 1, 0, &stops, &started); }),
                        ex::then([](tv const & x) { return x.get(); })), r, g, h::stop_env{src.get_token()});
  g.wait();
  t.join();
  mc::join_all();
  MC_CHECK(r.is(h::STOP) && started <= 1 && stops == started);
  mc::outcome("%d", started);
}
