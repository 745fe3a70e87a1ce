// P20: timed schedulers and the heap behind them.  Time is virtual: it advances only when every thread is blocked,
// so "no later than" can be checked as well as "no earlier than".
#include "common.hpp"
#include <exec/detail/intrusive_heap.hpp>
#include <exec/timed_scheduler.hpp>
#include <exec/timed_thread_scheduler.hpp>
#include <map>
#include <set>
#include <vector>

namespace
{
  using namespace std::chrono_literals;
  using tp = std::chrono::steady_clock::time_point;

  struct hn
  {
    int  key = 0;
    hn * prev = nullptr, *left = nullptr, *right = nullptr;
    int  id = 0;
  };
  using heap_t = exec::intrusive_heap<hn, int, &hn::key, &hn::prev, &hn::left, &hn::right>;

  int verify(hn* n, hn* parent)
  {
    if (!n) return 0;
    MC_CHECK(n->prev == parent);
    if (parent) MC_CHECK(!(n->key < parent->key));
    return 1 + verify(n->left, n) + verify(n->right, n);
  }
  struct heap_model
  {
    heap_t             h;
    std::map<int, int> in;  // id -> key
    hn                 n[12];
    heap_model() { for (int i = 0; i < 12; ++i) n[i].id = i; }
    void check()
    {
      MC_CHECK((h.front() == nullptr) == in.empty());
      MC_CHECK(verify(h.front(), nullptr) == int(in.size()));
      if (!in.empty())
      {
        int m = 1000;
        for (auto& [i, k]: in) m = std::min(m, k);
        MC_CHECK(in.count(h.front()->id) && h.front()->key == m);
      }
    }
    void insert(int i, int key) { n[i].key = key; in[i] = key; h.insert(&n[i]); check(); }
    void erase(int i)
    {
      bool r = h.erase(&n[i]);
      MC_CHECK(r == (in.count(i) > 0));
      in.erase(i);
      check();
    }
    void pop()
    {
      if (in.empty()) return;
      int i = h.front()->id;
      in.erase(i);
      h.pop_front();
      // what the timer does after a node was taken out: erase must answer false
      check();
      MC_CHECK(!h.erase(&n[i]) || !"erased twice");
      check();
    }
    void drain()
    {
      int last = -1;
      while (!in.empty())
      {
        int k = h.front()->key;
        MC_CHECK(k >= last);
        last = k;
        pop();
      }
    }
  };
}  // namespace

// every sequence of insert(key) / pop / erase(any node)
MC_SCENARIO(P20, heap_histories, {.preempt = -1, .depth = 6}, {.preempt = -1, .depth = 8})
{
  heap_model m;
  int        used = 0;
  for (int s = 0; s < mc::depth(); ++s)
  {
    unsigned op = mc::choose(4 + unsigned(used), "op");
    if (op < 3) m.insert(used++, int(op));
    else if (op == 3) { if (m.in.empty()) mc::discard(); m.pop(); }
    else { m.erase(int(op) - 4); }
  }
  m.drain();
}
// every heap shape up to n nodes reached by inserting a permutation, then erasing any two nodes
template <int N>
static void heap_perm()
{
  heap_model       m;
  std::vector<int> left;
  for (int i = 0; i < N; ++i) left.push_back(i);
  for (int i = 0; i < N; ++i)
  {
    unsigned c = mc::choose(unsigned(left.size()), "key");
    m.insert(i, left[c]);
    left.erase(left.begin() + c);
  }
  m.erase(int(mc::choose(N, "erase")));
  unsigned e = mc::choose(N + 1, "erase");
  if (e < N) m.erase(int(e));
  m.drain();
}
MC_SCENARIO(P20, heap_permutations_5, {.preempt = -1}) { heap_perm<5>(); }
MC_SCENARIO(P20, heap_permutations_6, {.preempt = -1}) { heap_perm<6>(); }
MC_SCENARIO(P20, heap_permutations_7, {.preempt = -1}) { heap_perm<7>(); }

namespace
{
  // -------------------------------------------------------------------------------------------
  struct watch  // one timed operation: what, when
  {
    h::rec r;
    long   at = -1;
    int    order = -1;
    int    tid = -1;
  };
  int& order() { static int o; return o; }
  template <class Env>
  struct timed
  {
    // starts schedule_at(deadline ns after t0) and reports to g after destroying the operation
    static void go(exec::timed_thread_context& c, long deadline, watch& w, h::gate& g, Env e, long t0)
    {
      struct ctx { watch* w; h::gate* g; };
      auto* k = new ctx{&w, &g};
      auto* b = h::make(exec::schedule_at(c.get_scheduler(), tp(std::chrono::nanoseconds(t0 + deadline))), w.r, std::move(e));
      b->link.then = [](void* p) noexcept {
        auto* k = static_cast<ctx*>(p);
        k->w->at = mc::now();
        k->w->order = order()++;
        k->w->tid = mc::self();
        auto* g = k->g;
        delete k;
        g->done();
      };
      b->link.then_arg = k;
      b->start();
    }
  };
}  // namespace

// k timers started by one thread: all expire, in deadline order (ties in the order they were started), at their time
static void expire(int k)
{
  order() = 0;
  long  t0 = mc::now();
  long  d[3];
  watch w[3];
  for (int i = 0; i < k; ++i) d[i] = long(mc::choose(4, "deadline")) * 1000 - 1000;
  {
    exec::timed_thread_context c;
    h::gate g(k);
    for (int i = 0; i < k; ++i) timed<h::no_env>::go(c, d[i], w[i], g, {}, t0);
    g.wait();
    for (int i = 0; i < k; ++i)
    {
      MC_CHECK(w[i].r.is(h::VAL));
      MC_CHECK(w[i].at >= t0 + d[i]);                  // not early
      MC_CHECK(w[i].at == std::max(t0, t0 + d[i]));    // and, nothing else being busy, not late either
      MC_CHECK(w[i].tid == w[0].tid && w[i].tid != mc::self());
      for (int j = 0; j < k; ++j)
        if (d[i] > 0 && d[j] > 0 && (d[i] < d[j] || (d[i] == d[j] && i < j))) MC_CHECK(w[i].order < w[j].order);
    }
  }
}
MC_SCENARIO(P20, expire_1, {.preempt = 3}, {.preempt = 5}) { expire(1); }
MC_SCENARIO(P20, expire_2, {.preempt = 2}, {.preempt = 3}) { expire(2); }
MC_SCENARIO(P20, expire_3, {.preempt = 1}, {.preempt = 2}) { expire(3); }

// two threads start operations concurrently (with a third that is already pending): none of the wake-ups gets lost
MC_SCENARIO(P20, concurrent_start, {.preempt = 3}, {.preempt = 4})
{
  order() = 0;
  long  t0 = mc::now();
  watch w[3];
  {
    exec::timed_thread_context c;
    h::gate g(3);
    timed<h::no_env>::go(c, 5000, w[2], g, {}, t0);
    std::thread t([&] { timed<h::no_env>::go(c, 1000, w[1], g, {}, t0); });
    timed<h::no_env>::go(c, -1, w[0], g, {}, t0);
    t.join();
    g.wait();
    MC_CHECK(w[0].r.is(h::VAL) && w[1].r.is(h::VAL) && w[2].r.is(h::VAL));
    MC_CHECK(w[0].at >= t0 && w[1].at >= t0 + 1000 && w[2].at >= t0 + 5000);
    MC_CHECK(w[0].order < 2 && w[2].order == 2);
    MC_CHECK(w[2].at == t0 + 5000 && w[1].at <= t0 + 5000 && w[0].at <= t0 + 5000);
  }
}
MC_SCENARIO(P20, concurrent_start_idle, {.preempt = 4}, {.preempt = -1})
{
  order() = 0;
  long  t0 = mc::now();
  watch w[2];
  {
    exec::timed_thread_context c;
    h::gate g(2);
    std::thread t([&] { timed<h::no_env>::go(c, -1, w[1], g, {}, t0); });
    timed<h::no_env>::go(c, -1, w[0], g, {}, t0);
    g.wait();
    t.join();
    MC_CHECK(w[0].r.is(h::VAL) && w[1].r.is(h::VAL));
    MC_CHECK(w[0].at == t0 && w[1].at == t0);
  }
}

// a stop request at any time: exactly one completion, and not later than the request or the expiry
MC_SCENARIO(P20, stop_race, {.preempt = 3}, {.preempt = 5})
{
  order() = 0;
  long  t0 = mc::now();
  long  d = mc::choose(2, "deadline") ? 1000000 : -1;
  watch w;
  {
    exec::timed_thread_context c;
    h::gate g(1);
    ex::inplace_stop_source src;
    std::thread t([&] { src.request_stop(); });
    timed<h::stop_env>::go(c, d, w, g, {src.get_token()}, t0);
    g.wait();
    t.join();
    MC_CHECK(w.r.is(h::VAL) || w.r.is(h::STOP));
    MC_CHECK(w.r.ch != h::VAL || w.at >= t0 + d);
    MC_CHECK(w.at == t0);  // the request does not wait for the deadline
    if (d > 0) MC_CHECK(w.r.is(h::STOP));
    mc::outcome("%s", w.r.str().c_str());
  }
}
MC_SCENARIO(P20, stop_race_early, {.preempt = 2, .early_timer = 1}, {.preempt = 4, .early_timer = 1})
{
  order() = 0;
  long  t0 = mc::now();
  watch w;
  {
    exec::timed_thread_context c;
    h::gate g(1);
    ex::inplace_stop_source src;
    timed<h::stop_env>::go(c, 1000, w, g, {src.get_token()}, t0);
    std::thread t([&] { src.request_stop(); });
    g.wait();
    t.join();
    MC_CHECK(w.r.is(h::VAL) || w.r.is(h::STOP));
    MC_CHECK(w.r.ch != h::VAL || w.at >= t0 + 1000);
    mc::outcome("%s", w.r.str().c_str());
  }
}
// the middle one of three pending operations is cancelled while the first expires
MC_SCENARIO(P20, stop_one_of_three, {.preempt = 2}, {.preempt = 4})
{
  order() = 0;
  long  t0 = mc::now();
  watch w[3];
  {
    exec::timed_thread_context c;
    h::gate g(3);
    ex::inplace_stop_source src, other;
    timed<h::stop_env>::go(c, 1000, w[0], g, {other.get_token()}, t0);
    timed<h::stop_env>::go(c, 2000, w[1], g, {src.get_token()}, t0);
    timed<h::stop_env>::go(c, 3000, w[2], g, {other.get_token()}, t0);
    src.request_stop();
    g.wait();
    MC_CHECK(w[1].r.is(h::STOP) && w[1].at == t0 && w[1].order == 0);
    MC_CHECK(w[0].r.is(h::VAL) && w[0].at == t0 + 1000);
    MC_CHECK(w[2].r.is(h::VAL) && w[2].at == t0 + 3000);
    MC_CHECK(!other.stop_requested());
  }
}
// two operations stopped by one request, a third by another thread
MC_SCENARIO(P20, stop_many, {.preempt = 2}, {.preempt = 3})
{
  order() = 0;
  long  t0 = mc::now();
  watch w[3];
  {
    exec::timed_thread_context c;
    h::gate g(3);
    ex::inplace_stop_source src, other;
    timed<h::stop_env>::go(c, 1000, w[0], g, {src.get_token()}, t0);
    timed<h::stop_env>::go(c, 2000, w[1], g, {src.get_token()}, t0);
    timed<h::stop_env>::go(c, 2000, w[2], g, {other.get_token()}, t0);
    std::thread t([&] { other.request_stop(); });
    src.request_stop();
    t.join();
    g.wait();
    for (auto& x: w) MC_CHECK(x.r.is(h::STOP) && x.at == t0);
  }
}
MC_SCENARIO(P20, already_stopped, {.preempt = 3}, {.preempt = -1})
{
  order() = 0;
  long  t0 = mc::now();
  watch w;
  exec::timed_thread_context c;
  h::gate g(1);
  ex::inplace_stop_source src;
  src.request_stop();
  timed<h::stop_env>::go(c, mc::choose(2) ? 1000 : -1, w, g, {src.get_token()}, t0);
  g.wait();
  MC_CHECK(w.r.is(h::STOP) && w.at == t0);
}
// the completion deregisters from the stop token: a request afterwards touches nothing
MC_SCENARIO(P20, deregistered, {.preempt = 3}, {.preempt = 4})
{
  order() = 0;
  long  t0 = mc::now();
  watch w;
  exec::timed_thread_context c;
  h::gate g(1);
  auto* src = new ex::inplace_stop_source;
  timed<h::stop_env>::go(c, -1, w, g, {src->get_token()}, t0);
  g.wait();
  if (mc::choose(2)) src->request_stop();
  delete src;
  MC_CHECK(w.r.is(h::VAL));
}
// destroying the context completes what is still pending, each exactly once
MC_SCENARIO(P20, destroy_pending, {.preempt = 3}, {.preempt = 5})
{
  order() = 0;
  long  t0 = mc::now();
  int   k = 1 + int(mc::choose(2, "count"));
  watch w[2];
  h::gate g(k);
  {
    exec::timed_thread_context c;
    for (int i = 0; i < k; ++i) timed<h::no_env>::go(c, mc::choose(2, "far") ? 1000 : -1, w[i], g, {}, t0);
  }
  for (int i = 0; i < k; ++i)
  {
    MC_CHECK(w[i].r.n == 1);
    MC_CHECK(w[i].r.is(h::VAL) || w[i].r.is(h::STOP));
    MC_CHECK(w[i].r.ch != h::VAL || w[i].at >= t0 - 1);
  }
}
// ... also when the pending operation is being cancelled at the same time
MC_SCENARIO(P20, destroy_while_stopping, {.preempt = 3}, {.preempt = 4})
{
  order() = 0;
  long  t0 = mc::now();
  watch w;
  h::gate g(1);
  ex::inplace_stop_source src;
  {
    exec::timed_thread_context c;
    timed<h::stop_env>::go(c, 1000, w, g, {src.get_token()}, t0);
    // the request has been made (but need not have been processed) when the context is destroyed
    src.request_stop();
  }
  g.wait();
  MC_CHECK(w.r.is(h::STOP) && w.at == t0);
}
// schedule(), schedule_after() and now()
MC_SCENARIO(P20, after, {.preempt = 2}, {.preempt = 3})
{
  long t0 = mc::now();
  exec::timed_thread_context c;
  auto s = c.get_scheduler();
  MC_CHECK(exec::now(s).time_since_epoch().count() == t0);
  h::rec r[3];
  h::gate g(2);
  auto snd = exec::schedule_after(s, 500ns);
  long conn = mc::now();
  h::go(std::move(snd) | ex::then([&] { return mc::now(); }), r[0], g);
  h::go(ex::schedule(s) | ex::then([&] { return mc::now(); }), r[1], g);
  g.wait();
  MC_CHECK(r[0].is(h::VAL) && r[0].v[0] == conn + 500);
  MC_CHECK(r[1].is(h::VAL) && r[1].v[0] == t0);
  h::gate g2(1);
  h::go(exec::schedule_after(s, 200ns) | ex::let_value([&] { return exec::schedule_after(s, 300ns); }) | ex::then([] { return mc::now(); }), r[2], g2);
  g2.wait();
  MC_CHECK(r[2].is(h::VAL) && r[2].v[0] == conn + 1000);
}
// completions delivered while the context is being destroyed start further operations, or stop others
MC_SCENARIO(P20, destroy_restart, {.preempt = 3}, {.preempt = 5})
{
  order() = 0;
  long  t0 = mc::now();
  watch w;
  h::rec r;
  h::gate g(2);
  unsigned far = mc::choose(2, "far"), far2 = mc::choose(2, "far2");
  {
    exec::timed_thread_context c;
    struct ctx { exec::timed_thread_context* c; watch* w; h::gate* g; long d, t0; } k{&c, &w, &g, far2 ? 5000 : -1, t0};
    auto* b = h::make(exec::schedule_at(c.get_scheduler(), tp(std::chrono::nanoseconds(t0 + (far ? 1000 : -1)))), r);
    b->link.then = [](void* p) noexcept { auto* k = static_cast<ctx*>(p); timed<h::no_env>::go(*k->c, k->d, *k->w, *k->g, {}, k->t0); k->g->done(); };
    b->link.then_arg = &k;
    b->start();
  }
  MC_CHECK(r.n == 1 && w.r.n == 1);
  MC_CHECK(w.r.is(h::VAL) || w.r.is(h::STOP));
  if (far2) MC_CHECK(w.r.is(h::STOP));
  if (far) MC_CHECK(r.is(h::STOP) && w.r.is(h::STOP));
  mc::outcome("%s %s", r.str().c_str(), w.r.str().c_str());
}
MC_SCENARIO(P20, destroy_chain_stop, {.preempt = 3}, {.preempt = 5})
{
  order() = 0;
  long  t0 = mc::now();
  watch w;
  h::rec r;
  h::gate g(2);
  ex::inplace_stop_source src;
  unsigned first = mc::choose(2, "order");
  {
    exec::timed_thread_context c;
    struct ctx { ex::inplace_stop_source* s; h::gate* g; } k{&src, &g};
    auto* b = h::make(exec::schedule_at(c.get_scheduler(), tp(std::chrono::nanoseconds(t0 + 1000))), r);
    b->link.then = [](void* p) noexcept { auto* k = static_cast<ctx*>(p); k->s->request_stop(); k->g->done(); };
    b->link.then_arg = &k;
    if (first) timed<h::stop_env>::go(c, 2000, w, g, {src.get_token()}, t0);
    b->start();
    if (!first) timed<h::stop_env>::go(c, 500, w, g, {src.get_token()}, t0);
  }
  MC_CHECK(r.is(h::STOP) && w.r.is(h::STOP));
}
