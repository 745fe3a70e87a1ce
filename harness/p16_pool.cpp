// P16: the static thread pool runs every task once and never loses a wake-up (a lost one shows as a deadlock).
// The pool is always created first, so that its workers are threads 1..n.
#include "common.hpp"
#include <exec/static_thread_pool.hpp>
#include <exec/sequence/ignore_all_values.hpp>
#include <exec/sequence/transform_each.hpp>
#include <vector>

namespace
{
  struct pool_t : exec::static_thread_pool
  {
    explicit pool_t(int n, exec::bwos_params p = {2, 2}) : exec::static_thread_pool(unsigned(n), p, exec::no_numa_policy{}) {}
  };
  // starts `s`; the completion also copies the plain value written by the submitter
  template <class S>
  auto reading(S s, int const & x) { return std::move(s) | ex::then([&x] { return x; }); }
  bool on_worker(h::rec const & r, int n) { return r.tid >= 1 && r.tid <= n; }
}  // namespace

// k operations started by the main thread on n workers
static void from_main(int n, int k)
{
  int    x[3] = {};
  h::rec r[3];
  {
    pool_t  pool(n);
    h::gate g(k);
    for (int i = 0; i < k; ++i)
    {
      x[i] = 10 + i;
      h::go(reading(ex::schedule(pool.get_scheduler()), x[i]), r[i], g);
    }
    g.wait();
  }
  for (int i = 0; i < k; ++i) MC_CHECK(r[i].is(h::VAL, 10 + i) && on_worker(r[i], n));
}
MC_SCENARIO(P16, idle_1, {.preempt = 6, .spurious = 1}, {.preempt = 10, .spurious = 1}) { pool_t pool(1); }
MC_SCENARIO(P16, idle_2, {.preempt = 3}, {.preempt = 4, .spurious = 1}) { pool_t pool(2); }
MC_SCENARIO(P16, one_of_1, {.preempt = 4, .spurious = 1}, {.preempt = 5, .spurious = 1}) { from_main(1, 1); }
MC_SCENARIO(P16, two_of_1, {.preempt = 3}, {.preempt = 4, .spurious = 1}) { from_main(1, 2); }
MC_SCENARIO(P16, three_of_1, {.preempt = 3}, {.preempt = 4}) { from_main(1, 3); }
MC_SCENARIO(P16, one_of_2, {.preempt = 3}, {.preempt = 4}) { from_main(2, 1); }
MC_SCENARIO(P16, two_of_2, {.preempt = 3}, {.preempt = 4}) { from_main(2, 2); }

// two submitters
static void submitters(int n, bool chosen)
{
  int    x[2] = {10, 11};
  h::rec r[2];
  {
    pool_t      pool(n);
    h::gate     g(2);
    auto        s = [&] { return chosen ? pool.get_scheduler_on_thread(std::size_t(n - 1)) : pool.get_scheduler(); };
    std::thread t([&] { h::go(reading(ex::schedule(s()), x[1]), r[1], g); });
    h::go(reading(ex::schedule(s()), x[0]), r[0], g);
    g.wait();
    t.join();
  }
  for (int i = 0; i < 2; ++i) MC_CHECK(r[i].is(h::VAL, 10 + i) && on_worker(r[i], n));
}
MC_SCENARIO(P16, submitters_1, {.preempt = 3}, {.preempt = 4}) { submitters(1, false); }
MC_SCENARIO(P16, submitters_2, {.preempt = 2}, {.preempt = 3}) { submitters(2, false); }
MC_SCENARIO(P16, submitters_same_worker, {.preempt = 2}, {.preempt = 3}) { submitters(2, true); }
// a scheduler obtained by one thread and used by another one
MC_SCENARIO(P16, foreign_scheduler, {.preempt = 2}, {.preempt = 3})
{
  h::rec r[2];
  {
    pool_t      pool(1);
    h::gate     g(2);
    auto        s = pool.get_scheduler();
    std::thread t([&] { h::go(ex::schedule(s), r[1], g); });
    h::go(ex::schedule(s), r[0], g);
    g.wait();
    t.join();
  }
  MC_CHECK(r[0].is(h::VAL) && r[1].is(h::VAL) && on_worker(r[0], 1) && on_worker(r[1], 1));
}
// a scheduler obtained inside the pool, used by a thread outside of it and by the other worker
MC_SCENARIO(P16, foreign_scheduler_from_worker, {.preempt = 2}, {.preempt = 3})
{
  h::rec   r[3], out;
  int      n = 1 + int(mc::choose(2, "workers"));
  {
    pool_t  pool(n);
    h::gate have(1), g(3);
    std::optional<decltype(pool.get_scheduler())> inner;
    h::go(ex::schedule(pool.get_scheduler_on_thread(0)) | ex::then([&] { inner.emplace(pool.get_scheduler()); }), out, have);
    have.wait();
    std::thread t([&] { h::go(ex::schedule(*inner), r[1], g); });
    h::go(ex::schedule(*inner), r[0], g);
    h::go(ex::schedule(pool.get_scheduler_on_thread(n - 1)) | ex::let_value([&] { return ex::schedule(*inner); }), r[2], g);
    g.wait();
    t.join();
  }
  MC_CHECK(out.is(h::VAL));
  for (auto& x: r) MC_CHECK(x.is(h::VAL) && on_worker(x, n));
}
// work started from inside the pool: k operations from one task, more than the local queue holds
static void inside(int n, int k, exec::bwos_params p)
{
  h::rec r[8], out;
  int    ran = 0;
  {
    pool_t  pool(n, p);
    h::gate g(k + 1);
    auto    s = pool.get_scheduler();
    h::go(ex::schedule(s) | ex::then([&] {
            auto here = pool.get_scheduler();
            for (int i = 0; i < k; ++i) h::go(ex::schedule(i % 2 ? here : s), r[i], g);
            return ++ran;
          }), out, g);
    g.wait();
  }
  MC_CHECK(out.is(h::VAL, 1) && on_worker(out, n));
  for (int i = 0; i < k; ++i) MC_CHECK(r[i].is(h::VAL) && on_worker(r[i], n));
}
MC_SCENARIO(P16, inside_1, {.preempt = 4}, {.preempt = 5, .spurious = 1}) { inside(1, 1 + int(mc::choose(2)), {2, 2}); }
MC_SCENARIO(P16, inside_1_overflow, {.preempt = 4}, {.preempt = 5}) { inside(1, 7, {2, 2}); }
MC_SCENARIO(P16, inside_2, {.preempt = 3}, {.preempt = 4}) { inside(2, 2, {2, 2}); }
MC_SCENARIO(P16, inside_2_overflow, {.preempt = 2}, {.preempt = 3}) { inside(2, 6, {2, 2}); }
// a chain that hops through the pool, interleaved with a submission from outside
MC_SCENARIO(P16, chain, {.preempt = 4}, {.preempt = 5})
{
  h::rec r[2];
  {
    pool_t  pool(1);
    h::gate g(2);
    auto    s = pool.get_scheduler();
    h::go(ex::schedule(s) | ex::let_value([&] { return ex::schedule(pool.get_scheduler()); }) | ex::continues_on(s), r[0], g);
    h::go(ex::schedule(s), r[1], g);
    g.wait();
  }
  MC_CHECK(r[0].is(h::VAL) && r[1].is(h::VAL));
}
// a worker is blocked inside its task until another task was executed by the other worker
MC_SCENARIO(P16, blocking_task, {.preempt = 3}, {.preempt = 4})
{
  h::rec r[2];
  {
    pool_t  pool(2);
    h::gate g(2), inner(1);
    h::go(ex::schedule(pool.get_scheduler_on_thread(0)) | ex::then([&] { inner.wait(); }), r[0], g);
    h::go(ex::schedule(pool.get_scheduler_on_thread(1)) | ex::then([&] { inner.done(); }), r[1], g);
    g.wait();
  }
  MC_CHECK(r[0].is(h::VAL) && r[1].is(h::VAL) && r[0].tid != r[1].tid);
}
// stop requests
MC_SCENARIO(P16, stop, {.preempt = 4}, {.preempt = 5})
{
  h::rec   r;
  unsigned when = mc::choose(3, "when");
  {
    pool_t                  pool(1);
    h::gate                 g(1);
    ex::inplace_stop_source src;
    std::thread             t;
    if (when == 0) src.request_stop();
    if (when == 1) t = std::thread([&] { src.request_stop(); });
    h::go(ex::schedule(pool.get_scheduler()), r, g, h::stop_env{src.get_token()});
    g.wait();
    if (when == 1) t.join();
  }
  MC_CHECK(on_worker(r, 1));
  if (when == 0) MC_CHECK(r.is(h::STOP));
  if (when == 2) MC_CHECK(r.is(h::VAL));
  MC_CHECK(r.is(h::STOP) || r.is(h::VAL));
  mc::outcome("%s", r.str().c_str());
}
// ... on every worker of the pool, and through every kind of scheduler of it
MC_SCENARIO(P16, stop_each_worker, {.preempt = 2}, {.preempt = 3})
{
  h::rec   r[2];
  unsigned when = mc::choose(3, "when"), which = mc::choose(2, "worker");
  {
    pool_t                  pool(2);
    h::gate                 g(2);
    ex::inplace_stop_source src;
    std::thread             t;
    if (when == 0) src.request_stop();
    if (when == 1) t = std::thread([&] { src.request_stop(); });
    h::go(ex::schedule(pool.get_scheduler_on_thread(which)), r[0], g, h::stop_env{src.get_token()});
    h::go(ex::schedule(pool.get_constrained_scheduler(&exec::nodemask::any())), r[1], g, h::stop_env{src.get_token()});
    g.wait();
    if (when == 1) t.join();
  }
  for (auto& x: r)
  {
    MC_CHECK(on_worker(x, 2));
    if (when == 0) MC_CHECK(x.is(h::STOP));
    if (when == 2) MC_CHECK(x.is(h::VAL));
    MC_CHECK(x.is(h::STOP) || x.is(h::VAL));
  }
}
// the pool's scheduler is the completion scheduler; constrained and numbered schedulers run there too
MC_SCENARIO(P16, schedulers, {.preempt = 3}, {.preempt = 4})
{
  h::rec r[3];
  {
    pool_t  pool(2);
    h::gate g(3);
    auto    any = pool.get_scheduler();
    MC_CHECK(any == pool.get_scheduler());
    MC_CHECK(any == ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(ex::schedule(any))));
    h::go(ex::schedule(pool.get_scheduler_on_thread(1)), r[0], g);
    h::go(ex::schedule(pool.get_scheduler_on_thread(0)), r[1], g);
    h::go(ex::schedule(pool.get_constrained_scheduler(&exec::nodemask::any())), r[2], g);
    g.wait();
  }
  for (auto& x: r) MC_CHECK(x.is(h::VAL) && on_worker(x, 2));
}

// ---------------------------------------------------------------------------------- iterate on the pool
namespace
{
  struct sumup
  {
    int n[8] = {};
  };
  template <class Pool>
  auto all_of(Pool& pool, std::vector<int> v, sumup& s, int n)
  {
    return exec::ignore_all_values(exec::transform_each(exec::schedule_all(pool, std::move(v)), ex::then([&s, n](int i) {
      MC_CHECK(i >= 0 && i < 8);
      ++s.n[i];  // plain: visible to the receiver only if the completion synchronizes with every item
      MC_CHECK(mc::self() >= 1 && mc::self() <= n);
    })));
  }
}  // namespace
static void iterate(int n, int k)
{
  h::rec r;
  sumup  s;
  {
    pool_t  pool(n, {1, 2});
    h::gate g(1);
    std::vector<int> v;
    for (int i = 0; i < k; ++i) v.push_back(i);
    h::go(all_of(pool, v, s, n), r, g);
    g.wait();
    for (int i = 0; i < 8; ++i) MC_CHECK(s.n[i] == (i < k));
  }
  MC_CHECK(r.is(h::VAL));
}
MC_SCENARIO(P16, iterate_1, {.preempt = 3}, {.preempt = 4}) { iterate(1, int(mc::choose(5, "items"))); }
MC_SCENARIO(P16, iterate_2, {.preempt = 3}, {.preempt = 4}) { iterate(2, 1 + int(mc::choose(5, "items"))); }
MC_SCENARIO(P16, iterate_inside, {.preempt = 4}, {.preempt = 5})
{
  h::rec r;
  sumup  s;
  int    k = int(mc::choose(4, "items"));
  {
    pool_t  pool(1);
    h::gate g(1);
    std::vector<int> v;
    for (int i = 0; i < k; ++i) v.push_back(i);
    h::go(ex::starts_on(pool.get_scheduler(), all_of(pool, v, s, 1)), r, g);
    g.wait();
    for (int i = 0; i < 8; ++i) MC_CHECK(s.n[i] == (i < k));
  }
  MC_CHECK(r.is(h::VAL));
}
// every way into the pool mixed: single operations and item sequences, from inside and from outside, past the capacity of
// the local queue, so that worker-local, pending and remote queues all hold work at the same time
static void mixed(int n, int before, int items, int after, bool outside)
{
  h::rec r[8], seq, outer, ext;
  sumup  s;
  {
    pool_t           pool(n, {2, 2});
    h::gate          g(before + after + 2 + outside);
    std::vector<int> v;
    for (int i = 0; i < items; ++i) v.push_back(i);
    std::thread t;
    if (outside) t = std::thread([&] { h::go(ex::schedule(pool.get_scheduler()), ext, g); });
    h::go(ex::schedule(pool.get_scheduler()) | ex::then([&] {
            auto here = pool.get_scheduler();
            for (int i = 0; i < before; ++i) h::go(ex::schedule(here), r[i], g);
            h::go(all_of(pool, v, s, n), seq, g);
            for (int i = before; i < before + after; ++i) h::go(ex::schedule(here), r[i], g);
          }), outer, g);
    g.wait();
    if (outside) t.join();
    for (int i = 0; i < 8; ++i) MC_CHECK(s.n[i] == (i < items));
  }
  MC_CHECK(outer.is(h::VAL) && seq.is(h::VAL));
  for (int i = 0; i < before + after; ++i) MC_CHECK(r[i].is(h::VAL) && on_worker(r[i], n));
  if (outside) MC_CHECK(ext.is(h::VAL) && on_worker(ext, n));
}
MC_SCENARIO(P16, mixed_1, {.preempt = 2}, {.preempt = 3})
{
  int b = int(mc::choose(6, "before")), i = 1 + int(mc::choose(3, "items")), a = int(mc::choose(2, "after"));
  mixed(1, b, i, a, false);
}
MC_SCENARIO(P16, mixed_1_outside, {.preempt = 2}, {.preempt = 3}) { mixed(1, 3 + int(mc::choose(3, "before")), 2, 1, true); }
MC_SCENARIO(P16, mixed_2, {.preempt = 2}, {.preempt = 3}) { mixed(2, 4 + int(mc::choose(2, "before")), 3, 1, false); }
