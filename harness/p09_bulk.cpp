// P09: bulk visits every index exactly once
#include "common.hpp"
#include <exec/static_thread_pool.hpp>
#include <exec/thread_pool_base.hpp>
using h::tv;

namespace
{
  constexpr int MAXN = 8;
  struct visits
  {
    int  n[MAXN] = {};
    int  calls = 0;
    bool all(int shape) const
    {
      for (int i = 0; i < MAXN; ++i)
        if (n[i] != (i < shape ? 1 : 0)) return false;
      return true;
    }
  };
  // the sequential policies
  template <class F>
  void with_policy(unsigned k, F f)
  {
    switch (k)
    {
    case 0: f(ex::seq); break;
    case 1: f(ex::par); break;
    case 2: f(ex::par_unseq); break;
    default: f(ex::unseq); break;
    }
  }
  struct thrower
  {
    int at;  // -1: never
    void operator()(int i) const { if (i == at) throw h::boom{i}; }
  };
}  // namespace

// all shapes, all channels, every throwing index, every policy
template <int KIND>
static void sequential()
{
  int  shape = mc::choose(7, "shape");
  int  at = int(mc::choose(shape + 1, "throw")) - 1;
  auto c = h::pick_chan();
  auto m = h::pick_mode();
  visits v;
  int    done = 0, seen = 0;
  h::rec r;
  r.need = &done; r.nneed = 1;
  with_policy(mc::choose(4, "policy"), [&](auto pol) {
    h::src s{c, 5, m, nullptr, 3, &done};
    thrower t{at};
    auto one = [&v, &seen, t](int i, tv& x) {
      if (i < 0 || i >= MAXN) mc::fail("bulk visited index %d", i);
      seen = x.get();
      t(i);
      ++v.n[i];
    };
    auto chunk = [one, &v](int b, int e, tv& x) mutable {
      ++v.calls;
      if (b >= e) mc::fail("bulk_chunked called with an empty range [%d,%d)", b, e);
      for (int i = b; i < e; ++i) one(i, x);
    };
    if constexpr (KIND == 0) h::go(ex::bulk(s, pol, shape, one), r);
    if constexpr (KIND == 1) h::go(ex::bulk_chunked(s, pol, shape, chunk), r);
    if constexpr (KIND == 2) h::go(ex::bulk_unchunked(s, pol, shape, one), r);
  });
  mc::join_all();
  if (c == h::VAL && at < 0)
  {
    MC_CHECK(r.is(h::VAL, 5));
    MC_CHECK(v.all(shape));
    MC_CHECK(shape == 0 || seen == 5);
  }
  else if (c == h::VAL)
  {
    MC_CHECK(r.is(h::ERR, 1000 + at));
    for (int i = 0; i < MAXN; ++i) MC_CHECK(v.n[i] <= (i < shape && i != at ? 1 : 0));
  }
  else
  {
    if (c == h::ERR) MC_CHECK(r.is(h::ERR, 5)); else MC_CHECK(r.is(h::STOP));
    MC_CHECK(v.all(0) && v.calls == 0);
  }
  MC_CHECK(r.ctx == (m == h::REMOTE ? 3 : 0));
  mc::outcome("%d%d%d%d", c, m, shape, at);
}
MC_SCENARIO(P09, bulk_seq, {.preempt = -1}) { sequential<0>(); }
MC_SCENARIO(P09, chunked_seq, {.preempt = -1}) { sequential<1>(); }
MC_SCENARIO(P09, unchunked_seq, {.preempt = -1}) { sequential<2>(); }

// the function receives references to the values that are then passed on
template <int KIND>
static void mutate()
{
  int    shape = mc::choose(5);
  h::rec r;
  auto   one = [](int i, tv& a, int& b) { *a.p += i + 1; b += 10; };
  auto   chunk = [one](int x, int e, tv& a, int& b) { for (; x < e; ++x) one(x, a, b); };
  auto   s = ex::just(tv(100), 1);
  if constexpr (KIND == 0) h::go(ex::bulk(std::move(s), ex::par, shape, one), r);
  if constexpr (KIND == 1) h::go(ex::bulk_chunked(std::move(s), ex::par, shape, chunk), r);
  if constexpr (KIND == 2) h::go(ex::bulk_unchunked(std::move(s), ex::par, shape, one), r);
  MC_CHECK(r.is(h::VAL) && r.nv == 2 && r.v[0] == 100 + shape * (shape + 1) / 2 && r.v[1] == 1 + 10 * shape);
}
MC_SCENARIO(P09, bulk_mutates, {.preempt = -1}) { mutate<0>(); }
MC_SCENARIO(P09, chunked_mutates, {.preempt = -1}) { mutate<1>(); }
MC_SCENARIO(P09, unchunked_mutates, {.preempt = -1}) { mutate<2>(); }

// other index types, including ones where the shape is the largest value of the type
template <class T>
static void shape_type(T shape)
{
  int n = 0;
  bool ok = true;
  T    last = 0;
  h::rec r;
  switch (mc::choose(3))
  {
  case 0: h::go(ex::just() | ex::bulk(ex::seq, shape, [&](T i) { ok = ok && (n == 0 ? i == 0 : i == T(last + 1)); last = i; ++n; }), r); break;
  case 1: h::go(ex::just() | ex::bulk_unchunked(ex::seq, shape, [&](T i) { ok = ok && (n == 0 ? i == 0 : i == T(last + 1)); last = i; ++n; }), r); break;
  default: h::go(ex::just() | ex::bulk_chunked(ex::seq, shape, [&](T b, T e) { ok = ok && b == T(n); n += e - b; }), r);
  }
  MC_CHECK(r.is(h::VAL) && ok && n == int(shape));
}
MC_SCENARIO(P09, shape_types, {.preempt = -1})
{
  switch (mc::choose(6))
  {
  case 0: shape_type<unsigned char>(255); break;
  case 1: shape_type<signed char>(127); break;
  case 2: shape_type<short>(300); break;
  case 3: shape_type<unsigned long>(5); break;
  case 4: shape_type<long>(0); break;
  default: shape_type<unsigned>(3);
  }
}

// the partition used by the pools is a partition: all shapes x all agent counts x index types
template <class T>
static void partition(int maxn, int maxt)
{
  for (int n = 0; n <= maxn; ++n)
    for (int t = 1; t <= maxt; ++t)
    {
      int at = 0, lo = maxn + 1, hi = 0;
      for (int k = 0; k < t; ++k)
      {
        auto [b, e] = exec::_pool_::even_share(T(n), k, t);
        MC_CHECK(int(b) == at && int(e) >= int(b));
        at = e;
        lo = std::min(lo, int(e - b));
        hi = std::max(hi, int(e - b));
      }
      MC_CHECK(at == n && hi - lo <= 1);
    }
}
MC_SCENARIO(P09, even_share_exhaustive, {.preempt = -1})
{
  switch (mc::choose(5))
  {
  case 0: partition<int>(70, 20); break;
  case 1: partition<unsigned long>(70, 20); break;
  case 2: partition<short>(70, 20); break;
  case 3: partition<signed char>(127, 20); break;
  default: partition<unsigned char>(255, 20);
  }
}

// ----------------------------------------------------------------------------- static_thread_pool
// `throwing` is the index that throws (-1: none)
template <int KIND>
static void on_pool(int threads, int shape, int at, unsigned pol)
{
  visits  v;
  int     mine[MAXN] = {};
  h::rec  r;
  {
    exec::static_thread_pool pool(threads, exec::bwos_params{2, 2}, exec::no_numa_policy{});
    h::gate g;
    auto sch = pool.get_scheduler();
    auto one = [&v, at](int i, tv& x) {
      if (i < 0 || i >= MAXN) mc::fail("bulk visited index %d", i);
      MC_CHECK(x.get() == 5);
      if (i == at) throw h::boom{i};
      ++v.n[i];  // plain: visible to the receiver only if the completion synchronizes with every agent
    };
    auto chunk = [one](int b, int e, tv& x) mutable {
      for (int i = b; i < e; ++i) one(i, x);
    };
    with_policy(pol, [&](auto p) {
      auto s = ex::continues_on(ex::just(tv(5)), sch);
      if constexpr (KIND == 0) h::go(ex::bulk(std::move(s), p, shape, one), r, g);
      if constexpr (KIND == 1) h::go(ex::bulk_chunked(std::move(s), p, shape, chunk), r, g);
      if constexpr (KIND == 2) h::go(ex::bulk_unchunked(std::move(s), p, shape, one), r, g);
    });
    g.wait();
    MC_CHECK(r.tid != 0);
  }
  if (at < 0)
  {
    MC_CHECK(r.is(h::VAL, 5) && v.all(shape));
  }
  else
  {
    MC_CHECK(r.is(h::ERR, 1000 + at));
    for (int i = 0; i < MAXN; ++i) MC_CHECK(v.n[i] <= (i < shape && i != at ? 1 : 0));
  }
  mc::outcome("%s", r.str().c_str());
}
MC_SCENARIO(P09, pool_bulk, {.preempt = 3}, {.preempt = 4})
{
  int shape = 1 + mc::choose(3);
  on_pool<0>(2, shape, int(mc::choose(shape + 1)) - 1, 1);
}
MC_SCENARIO(P09, pool_chunked, {.preempt = 3}, {.preempt = 4})
{
  int shape = 1 + mc::choose(3);
  on_pool<1>(2, shape, int(mc::choose(shape + 1)) - 1, 2);
}
MC_SCENARIO(P09, pool_unchunked, {.preempt = 3}, {.preempt = 4})
{
  int shape = 1 + mc::choose(3);
  on_pool<2>(2, shape, int(mc::choose(shape + 1)) - 1, 1);
}
// the same with functions that cannot throw (the pools take another path for them)
template <int KIND, bool BASE>
static void on_pool_nx(int threads, int shape);
MC_SCENARIO(P09, pool_noexcept, {.preempt = 3}, {.preempt = 4})
{
  int shape = 1 + int(mc::choose(4)), n = 1 + int(mc::choose(2));
  switch (mc::choose(3))
  {
  case 0: on_pool_nx<0, false>(n, shape); break;
  case 1: on_pool_nx<1, false>(n, shape); break;
  default: on_pool_nx<2, false>(n, shape);
  }
}
// shapes 0..6 on 1..3 agents, sequential policies too
static void pool_shapes(int maxn, int maxt)
{
  int shape = mc::choose(maxn + 1);
  int n = 1 + mc::choose(maxt);
  int at = mc::choose(2) ? shape - 1 : -1;
  int pol = mc::choose(2);
  switch (mc::choose(3))
  {
  case 0: on_pool<0>(n, shape, at, pol); break;
  case 1: on_pool<1>(n, shape, at, pol); break;
  default: on_pool<2>(n, shape, at, pol);
  }
}
MC_SCENARIO(P09, pool_shapes_2, {.preempt = 1}, {.preempt = 2}) { pool_shapes(6, 2); }
MC_SCENARIO(P09, pool_shapes_3, {.preempt = 0}, {.preempt = 0})
{
  int shape = 2 + mc::choose(5);
  on_pool<0>(3, shape, -1, 1);
}
// several invocations fail: still exactly one error
MC_SCENARIO(P09, pool_many_errors, {.preempt = 3}, {.preempt = 4})
{
  int    shape = 2 + mc::choose(2);
  h::rec r;
  {
    exec::static_thread_pool pool(2, exec::bwos_params{2, 2}, exec::no_numa_policy{});
    h::gate g;
    h::go(ex::bulk(ex::schedule(pool.get_scheduler()), ex::par, shape, [](int i) { throw h::boom{i}; }), r, g);
    g.wait();
  }
  MC_CHECK(r.n == 1 && r.ch == h::ERR && r.v[0] >= 1000 && r.v[0] < 1000 + shape);
  mc::outcome("%ld", r.v[0]);
}
// two bulk phases one after the other on the pool
MC_SCENARIO(P09, pool_two_phases, {.preempt = 2}, {.preempt = 4})
{
  int    a[2] = {}, b[3] = {};
  h::rec r;
  {
    exec::static_thread_pool pool(2, exec::bwos_params{2, 2}, exec::no_numa_policy{});
    h::gate g;
    h::go(ex::schedule(pool.get_scheduler()) | ex::bulk(ex::par, 2, [&](int i) { ++a[i]; })
            | ex::bulk(ex::par, 3, [&](int i) { MC_CHECK(a[0] == 1 && a[1] == 1); ++b[i]; }) | ex::then([&] { return b[0] + b[1] + b[2]; }), r, g);
    g.wait();
  }
  MC_CHECK(r.is(h::VAL, 3));
}
// predecessors that fail or stop skip the function, on the pool as well
MC_SCENARIO(P09, pool_skips, {.preempt = 1}, {.preempt = 2})
{
  h::chan c = mc::choose(2) ? h::ERR : h::STOP;
  int     n = 0;
  h::rec  r;
  {
    exec::static_thread_pool pool(1, exec::bwos_params{2, 2}, exec::no_numa_policy{});
    h::gate g;
    auto    f = [&](auto, auto&&...) { ++n; };
    h::go(ex::bulk_unchunked(ex::continues_on(h::src{c, 5}, pool.get_scheduler()), ex::par, 2, f), r, g);
    g.wait();
  }
  MC_CHECK(n == 0);
  if (c == h::ERR) MC_CHECK(r.is(h::ERR, 5)); else MC_CHECK(r.is(h::STOP));
}

// ----------------------------------------------------------------------------- thread_pool_base
namespace
{
  // every task gets its own thread: the agents of one bulk run concurrently in every order
  struct my_pool : exec::thread_pool_base<my_pool>
  {
    std::uint32_t par;
    explicit my_pool(unsigned n) : par(n) {}
    std::uint32_t available_parallelism() const { return par; }
    static constexpr ex::forward_progress_guarantee forward_progress_guarantee() { return ex::forward_progress_guarantee::parallel; }
    void enqueue(exec::_pool_::task_base* t, std::uint32_t tid = 0) noexcept
    {
      std::thread([t, tid] { h::ctx_id = 20 + tid; t->execute_(t, tid); }).detach();
    }
  };
}  // namespace
template <int KIND>
static void on_base(int threads, int shape, int at)
{
  visits  v;
  h::rec  r;
  my_pool pool(threads);
  auto one = [&v, at](int i, tv& x) {
    if (i < 0 || i >= MAXN) mc::fail("bulk visited index %d", i);
    MC_CHECK(x.get() == 5);
    if (i == at || at == -2) throw h::boom{i};
    ++v.n[i];
  };
  auto chunk = [one](int b, int e, tv& x) mutable {
    for (int i = b; i < e; ++i) one(i, x);
  };
  auto s = ex::continues_on(ex::just(tv(5)), pool.get_scheduler());
  if constexpr (KIND == 0) h::go(ex::bulk(std::move(s), ex::par, shape, one), r);
  if constexpr (KIND == 1) h::go(ex::bulk_chunked(std::move(s), ex::par, shape, chunk), r);
  mc::join_all();
  if (at == -1 || shape == 0) MC_CHECK(r.is(h::VAL, 5) && v.all(shape));
  else if (at == -2)
  {
    MC_CHECK(r.n == 1 && r.ch == h::ERR && r.v[0] >= 1000 && r.v[0] < 1000 + shape && v.all(0));
  }
  else
  {
    MC_CHECK(r.is(h::ERR, 1000 + at));
    for (int i = 0; i < MAXN; ++i) MC_CHECK(v.n[i] <= (i < shape && i != at ? 1 : 0));
  }
}
template <int KIND, bool BASE>
static void on_pool_nx(int threads, int shape)
{
  visits v;
  h::rec r;
  auto   one = [&v](int i, tv& x) noexcept {
    if (i < 0 || i >= MAXN) mc::fail("bulk visited index %d", i);
    MC_CHECK(x.get() == 5);
    ++v.n[i];  // plain, see above
  };
  auto chunk = [one](int b, int e, tv& x) noexcept {
    for (int i = b; i < e; ++i) one(i, x);
  };
  auto run = [&](auto sch, auto&&... g) {
    auto s = ex::continues_on(ex::just(tv(5)), sch);
    if constexpr (KIND == 0) h::go(ex::bulk(std::move(s), ex::par, shape, one), r, g...);
    if constexpr (KIND == 1) h::go(ex::bulk_chunked(std::move(s), ex::par, shape, chunk), r, g...);
    if constexpr (KIND == 2) h::go(ex::bulk_unchunked(std::move(s), ex::par, shape, one), r, g...);
    // a function that can be called with anything: the adaptor may look at how it is called with one index
    if constexpr (KIND == 3)
      h::go(ex::bulk_chunked(std::move(s), ex::par, shape, [chunk](auto&&... a) noexcept {
        if constexpr (sizeof...(a) == 3) chunk(a...); else mc::fail("bulk_chunked calls its function with %d arguments", int(sizeof...(a)));
      }), r, g...);
  };
  if constexpr (BASE)
  {
    my_pool pool(threads);
    run(pool.get_scheduler());
    mc::join_all();
    MC_CHECK(r.is(h::VAL, 5) && v.all(shape));
  }
  else
  {
    exec::static_thread_pool pool(threads, exec::bwos_params{2, 2}, exec::no_numa_policy{});
    h::gate g;
    run(pool.get_scheduler(), g);
    g.wait();
    MC_CHECK(r.is(h::VAL, 5) && v.all(shape) && r.tid != 0);
  }
}
MC_SCENARIO(P09, base_noexcept, {.preempt = -1})
{
  int shape = int(mc::choose(6)), n = 1 + int(mc::choose(3));
  switch (mc::choose(3))
  {
  case 0: on_pool_nx<0, true>(n, shape); break;
  case 1: on_pool_nx<1, true>(n, shape); break;
  default: on_pool_nx<3, true>(n, shape);
  }
}
// a function whose call with one index cannot throw, and whose call with a range can
namespace
{
  struct two_ways
  {
    visits* v;
    int     at;
    void operator()(int, tv&) const noexcept { mc::fail("bulk_chunked calls its function with one index"); }
    void operator()(int b, int e, tv& x) const
    {
      for (int i = b; i < e; ++i)
      {
        if (i == at) throw h::boom{i};
        MC_CHECK(x.get() == 5);
        ++v->n[i];
      }
    }
  };
}  // namespace
MC_SCENARIO(P09, base_two_ways, {.preempt = -1})
{
  int    shape = 1 + int(mc::choose(4)), n = 1 + int(mc::choose(3)), at = int(mc::choose(shape + 1)) - 1;
  bool   base = mc::choose(2);
  visits v;
  h::rec r;
  auto   run = [&](auto sch, auto&&... g) {
    h::go(ex::bulk_chunked(ex::continues_on(ex::just(tv(5)), sch), ex::par, shape, two_ways{&v, at}), r, g...);
  };
  if (base)
  {
    my_pool pool(n);
    run(pool.get_scheduler());
    mc::join_all();
  }
  else
  {
    run(ex::inline_scheduler{});
  }
  if (at < 0) MC_CHECK(r.is(h::VAL, 5) && v.all(shape)); else MC_CHECK(r.is(h::ERR, 1000 + at));
}
MC_SCENARIO(P09, base_bulk, {.preempt = -1})
{
  int shape = mc::choose(7);
  int n = 1 + mc::choose(3);
  int at = int(mc::choose(shape + 2)) - 1;
  if (at == shape) at = -2;  // every index
  if (mc::choose(2)) on_base<0>(n, shape, at); else on_base<1>(n, shape, at);
}
