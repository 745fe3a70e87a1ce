// P25: contexts that own threads: single_thread_context and pools derived from thread_pool_base.
#include "common.hpp"
#include <exec/single_thread_context.hpp>
#include <exec/thread_pool_base.hpp>
#include <deque>
#include <condition_variable>
#include <mutex>
#include <vector>

namespace
{
  template <class S>
  auto reading(S s, int const & x) { return std::move(s) | ex::then([&x] { return x; }); }
}  // namespace

MC_SCENARIO(P25, idle, {.preempt = -1, .spurious = 1}, {.preempt = -1, .stale = 1, .spurious = 2}) { exec::single_thread_context c; }

// k operations started before destruction, destruction races with their execution: none is dropped
static void drop_none(int k, bool wait)
{
  h::rec r[3];
  int    x[3] = {};
  std::thread::id tid;
  {
    h::gate g(k);
    {
      exec::single_thread_context c;
      tid = c.get_thread_id();
      for (int i = 0; i < k; ++i)
      {
        x[i] = 10 + i;
        h::go(reading(ex::schedule(c.get_scheduler()), x[i]), r[i], g);
      }
      if (wait) g.wait();
    }
  }
  for (int i = 0; i < k; ++i) MC_CHECK(r[i].is(h::VAL, 10 + i) && r[i].tid == 1);
}
MC_SCENARIO(P25, drop_none_1, {.preempt = -1, .spurious = 1}, {.preempt = -1, .stale = 1, .spurious = 1}) { drop_none(1, mc::choose(2)); }
MC_SCENARIO(P25, drop_none_2, {.preempt = -1}, {.preempt = -1, .spurious = 1}) { drop_none(2, mc::choose(2)); }
MC_SCENARIO(P25, drop_none_3, {.preempt = 4}, {.preempt = -1}) { drop_none(3, mc::choose(2)); }

// two submitters, in order each, then the destructor
MC_SCENARIO(P25, submitters, {.preempt = 3}, {.preempt = 5})
{
  h::rec r[4];
  int    order[4], n = 0;
  {
    exec::single_thread_context c;
    h::gate g(4);
    auto push = [&](int i) { h::go(ex::schedule(c.get_scheduler()) | ex::then([&, i] { order[n++] = i; }), r[i], g); };
    std::thread t([&] { push(2); push(3); });
    push(0);
    push(1);
    t.join();
    if (mc::choose(2)) g.wait();
  }
  MC_CHECK(n == 4);
  int pos[4];
  for (int i = 0; i < 4; ++i) { MC_CHECK(r[i].is(h::VAL) && r[i].tid == 1); pos[order[i]] = i; }
  MC_CHECK(pos[0] < pos[1] && pos[2] < pos[3]);
}
// work that starts more work on the context, raced by the destructor
MC_SCENARIO(P25, inside, {.preempt = -1}, {.preempt = -1, .spurious = 1})
{
  h::rec r[2];
  {
    h::gate g(2);
    exec::single_thread_context c;
    auto s = c.get_scheduler();
    h::go(ex::schedule(s) | ex::then([&, s] { h::go(ex::schedule(s), r[1], g); }), r[0], g);
    if (mc::choose(2)) g.wait();
  }
  MC_CHECK(r[0].is(h::VAL) && r[1].is(h::VAL) && r[0].tid == 1 && r[1].tid == 1);
}
MC_SCENARIO(P25, stop, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  h::rec r;
  unsigned when = mc::choose(3);
  ex::inplace_stop_source src;
  {
    exec::single_thread_context c;
    h::gate g(1);
    std::thread t;
    if (when == 0) src.request_stop();
    if (when == 1) t = std::thread([&] { src.request_stop(); });
    h::go(ex::schedule(c.get_scheduler()), r, g, h::stop_env{src.get_token()});
    if (when == 1) t.join();
  }
  MC_CHECK(r.tid == 1 && (r.is(h::VAL) || r.is(h::STOP)));
  if (when == 0) MC_CHECK(r.is(h::STOP));
  if (when == 2) MC_CHECK(r.is(h::VAL));
  mc::outcome("%s", r.str().c_str());
}
// two contexts: work bounces between them
MC_SCENARIO(P25, ping_pong, {.preempt = 3}, {.preempt = 5})
{
  h::rec r;
  std::thread::id a1, b1, a2;
  std::thread::id ia, ib;
  {
    exec::single_thread_context a, b;
    h::gate g(1);
    ia = a.get_thread_id();
    ib = b.get_thread_id();
    auto id = [](std::thread::id& t) { return ex::then([&t] { t = std::this_thread::get_id(); }); };
    h::go(ex::schedule(a.get_scheduler()) | id(a1) | ex::continues_on(b.get_scheduler()) | id(b1) | ex::continues_on(a.get_scheduler()) | id(a2), r, g);
    g.wait();
  }
  MC_CHECK(r.is(h::VAL) && a1 == ia && b1 == ib && a2 == ia);
}

// ---------------------------------------------------------------------------------- thread_pool_base
namespace
{
  using task_base = exec::static_thread_pool::task_base;
  // a minimal pool: one mutex-protected queue, n threads (created first: threads 1..n)
  class my_pool : public exec::thread_pool_base<my_pool>
  {
    struct item { task_base* t; std::uint32_t tid; };
    std::mutex               m_;
    std::condition_variable  cv_;
    std::deque<item>         q_;
    bool                     stop_ = false;
    std::uint32_t            n_;
    std::vector<std::thread> ts_;
    void run()
    {
      for (;;)
      {
        item i;
        {
          std::unique_lock l(m_);
          cv_.wait(l, [&] { return stop_ || !q_.empty(); });
          if (q_.empty()) return;
          i = q_.front();
          q_.pop_front();
        }
        i.t->execute_(i.t, i.tid);
      }
    }
   public:
    explicit my_pool(std::uint32_t n) : n_(n) { for (std::uint32_t i = 0; i < n; ++i) ts_.emplace_back([this] { run(); }); }
    ~my_pool()
    {
      { std::lock_guard l(m_); stop_ = true; }
      cv_.notify_all();
      for (auto& t: ts_) t.join();
    }
    std::uint32_t available_parallelism() const { return n_; }
    static constexpr ex::forward_progress_guarantee forward_progress_guarantee() { return ex::forward_progress_guarantee::parallel; }
    void enqueue(task_base* t, std::uint32_t tid = 0) noexcept
    {
      std::lock_guard l(m_);
      q_.push_back({t, tid});
      cv_.notify_one();
    }
  };
}  // namespace
static void base_pool(int n, int k)
{
  h::rec r[3];
  int    x[3] = {};
  {
    h::gate g(k);
    my_pool pool((unsigned) n);
    MC_CHECK(pool.get_scheduler() == pool.get_scheduler());
    for (int i = 0; i < k; ++i)
    {
      x[i] = 10 + i;
      h::go(reading(ex::schedule(pool.get_scheduler()), x[i]), r[i], g);
    }
    if (mc::choose(2)) g.wait();
  }
  for (int i = 0; i < k; ++i) MC_CHECK(r[i].is(h::VAL, 10 + i) && r[i].tid >= 1 && r[i].tid <= n);
}
MC_SCENARIO(P25, base_pool_1, {.preempt = 3}, {.preempt = -1}) { base_pool(1, 2); }
MC_SCENARIO(P25, base_pool_2, {.preempt = 3}, {.preempt = 5}) { base_pool(2, 2); }
MC_SCENARIO(P25, base_pool_3, {.preempt = 2}, {.preempt = 4}) { base_pool(2, 3); }
MC_SCENARIO(P25, base_pool_stop, {.preempt = 3}, {.preempt = 5})
{
  h::rec r;
  unsigned when = mc::choose(3);
  ex::inplace_stop_source src;
  {
    h::gate g(1);
    my_pool pool(1);
    std::thread t;
    if (when == 0) src.request_stop();
    if (when == 1) t = std::thread([&] { src.request_stop(); });
    h::go(ex::schedule(pool.get_scheduler()), r, g, h::stop_env{src.get_token()});
    if (when == 1) t.join();
  }
  MC_CHECK(r.tid == 1 && (r.is(h::VAL) || r.is(h::STOP)));
  if (when == 0) MC_CHECK(r.is(h::STOP));
  if (when == 2) MC_CHECK(r.is(h::VAL));
}
// bulk on two workers together with a plain task
MC_SCENARIO(P25, base_pool_bulk, {.preempt = 2}, {.preempt = 3})
{
  h::rec r[2];
  int    v[4] = {};
  int    shape = int(mc::choose(4));
  {
    h::gate g(2);
    my_pool pool(2);
    h::go(ex::bulk(ex::schedule(pool.get_scheduler()), ex::par, shape, [&](int i) { ++v[i]; }), r[0], g);
    h::go(ex::schedule(pool.get_scheduler()), r[1], g);
    g.wait();
  }
  MC_CHECK(r[0].is(h::VAL) && r[1].is(h::VAL));
  for (int i = 0; i < 4; ++i) MC_CHECK(v[i] == (i < shape));
}
