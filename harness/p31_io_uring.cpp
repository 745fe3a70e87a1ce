// P31: the io_uring context on a modelled kernel (uring_kernel.hpp).
// PARTS: 2
#include "uring_kernel.hpp"

namespace
{
  using namespace std::chrono_literals;
  using ctx_t = exec::io_uring_context;

  struct watch
  {
    h::rec r;
    long   at  = -1;
    int    tid = -1;
  };
  template <class S, class Env>
  void go(S s, watch& w, h::gate& g, Env e)
  {
    struct c_t { watch* w; h::gate* g; };
    auto* k = new c_t{&w, &g};
    auto* b = h::make(std::move(s), w.r, std::move(e));
    b->link.then = [](void* p) noexcept {
      auto* k = static_cast<c_t*>(p);
      k->w->at = mc::now();
      k->w->tid = mc::self();
      auto* g = k->g;
      delete k;
      g->done();
    };
    b->link.then_arg = k;
    b->start();
  }
  template <class Env = h::no_env>
  void now_(ctx_t& c, watch& w, h::gate& g, Env e = {}) { go(ex::schedule(c.get_scheduler()), w, g, std::move(e)); }
  template <class Env = h::no_env>
  void after(ctx_t& c, long ns, watch& w, h::gate& g, Env e = {})
  {
    go(exec::schedule_after(c.get_scheduler(), std::chrono::nanoseconds(ns)), w, g, std::move(e));
  }
  struct runner
  {
    ctx_t&      c;
    int         tid = -1;
    std::thread t;
    explicit runner(ctx_t& c) : c(c), t([this] { tid = mc::self(); this->c.run_until_stopped(); }) {}
    void stop()
    {
      MC_CHECK(!c.request_stop());
      t.join();
      MC_CHECK(!c.is_running() && c.stop_requested());
    }
  };
  // a stop token other than inplace_stop_token
  struct token2
  {
    ex::inplace_stop_token t;
    template <class F> struct cb : ex::inplace_stop_callback<F>
    {
      cb(token2 t, F f) : ex::inplace_stop_callback<F>(t.t, std::move(f)) {}
    };
    template <class F> using callback_type = cb<F>;
    bool stop_requested() const noexcept { return t.stop_requested(); }
    bool stop_possible() const noexcept { return true; }
    bool operator==(token2 const &) const = default;
  };
  struct env2
  {
    token2 tok;
    token2 query(ex::get_stop_token_t) const noexcept { return tok; }
  };
  void reset() { uring::interrupts = 0; uring::shorts = 0; uring::setup_error = 0; }
}  // namespace

#if MC_PART == 0
// operations started by several threads run once, on the thread that runs the context
MC_SCENARIO(P31, schedule, {.preempt = 2}, {.preempt = 4})
{
  reset();
  watch w[2];
  ctx_t c(2);
  runner r(c);
  h::gate g(2);
  std::thread t([&] { now_(c, w[1], g); });
  now_(c, w[0], g);
  g.wait();
  t.join();
  r.stop();
  for (auto& x: w) MC_CHECK(x.r.is(h::VAL) && x.tid == r.tid);
}
MC_SCENARIO(P31, schedule_signal, {.preempt = 2}, {.preempt = 4})
{
  reset();
  uring::interrupts = 1;
  watch w;
  ctx_t c(2);
  runner r(c);
  h::gate g(1);
  now_(c, w, g);
  g.wait();
  r.stop();
  MC_CHECK(w.r.is(h::VAL) && w.tid == r.tid);
}
// the kernel accepts only some of the submissions at first
MC_SCENARIO(P31, short_submission, {.preempt = 2}, {.preempt = 3})
{
  reset();
  uring::shorts = 2;
  ctx_t c(4);
  watch w[3];
  h::gate g(3);
  long t0 = mc::now();
  for (int i = 0; i < 3; ++i) after(c, 100 * (i + 1), w[i], g);
  runner r(c);
  g.wait();
  r.stop();
  for (int i = 0; i < 3; ++i) MC_CHECK(w[i].r.is(h::VAL) && w[i].tid == r.tid && w[i].at >= t0 + 100 * (i + 1));
}
// one after the other: each needs a wake-up of its own
MC_SCENARIO(P31, wake_ups, {.preempt = 3}, {.preempt = 5})
{
  reset();
  ctx_t c(2);
  runner r(c);
  for (int i = 0; i < 3; ++i)
  {
    watch w;
    h::gate g(1);
    now_(c, w, g);
    g.wait();
    MC_CHECK(w.r.is(h::VAL) && w.tid == r.tid);
  }
  r.stop();
}
// an operation that starts another one from its completion
MC_SCENARIO(P31, chained, {.preempt = 2}, {.preempt = 4})
{
  reset();
  ctx_t c(2);
  runner r(c);
  watch w;
  h::gate g(1);
  long t0 = mc::now();
  long d  = mc::choose(2, "delay") ? 1000 : 0;
  auto s  = c.get_scheduler();
  go(ex::schedule(s) | ex::let_value([s, d] { return exec::schedule_after(s, std::chrono::nanoseconds(d)); }) | ex::let_value([s] { return ex::schedule(s); }), w, g, h::no_env{});
  g.wait();
  r.stop();
  MC_CHECK(w.r.is(h::VAL) && w.tid == r.tid && w.at == t0 + d);
}
// a timer does not fire early, nor late when the context has nothing else to do
MC_SCENARIO(P31, timer, {.preempt = 3}, {.preempt = 5})
{
  reset();
  static long const d[] = {-1000, 0, 1, 999999999, 1000000000, 1500000000, -1500000000};
  long x = d[mc::choose(7, "duration")];
  ctx_t c(2);
  runner r(c);
  watch w;
  h::gate g(1);
  long t0 = mc::now();
  if (mc::choose(2, "at")) go(exec::schedule_at(c.get_scheduler(), std::chrono::steady_clock::now() + std::chrono::nanoseconds(x)), w, g, h::no_env{});
  else after(c, x, w, g);
  g.wait();
  r.stop();
  MC_CHECK(w.r.is(h::VAL) && w.tid == r.tid && w.at == t0 + std::max(x, 0L));
}
MC_SCENARIO(P31, timers_2, {.preempt = 1}, {.preempt = 3})
{
  reset();
  ctx_t c(2);
  runner r(c);
  watch w[2];
  h::gate g(2);
  long t0 = mc::now(), d[2];
  for (auto& x: d) x = 1000 * long(mc::choose(3, "duration"));
  std::thread t([&] { after(c, d[1], w[1], g); });
  after(c, d[0], w[0], g);
  g.wait();
  t.join();
  r.stop();
  for (int i = 0; i < 2; ++i) MC_CHECK(w[i].r.is(h::VAL) && w[i].tid == r.tid && w[i].at >= t0 + d[i] && w[i].at <= t0 + std::max(d[0], d[1]) );
}
// more operations than the submission queue has room for, all started before the context runs: none is lost, and none waits
// for another one
template <int N>
static void full(unsigned entries, bool late)
{
  reset();
  ctx_t c(entries);
  watch w[N];
  h::gate g(N);
  long t0 = mc::now();
  bool longest_first = mc::choose(2, "order");
  for (int i = 0; i < N; ++i) after(c, 1000 * (longest_first ? N - i : i), w[i], g);
  runner r(c);
  g.wait();
  r.stop();
  for (int i = 0; i < N; ++i)
  {
    long due = t0 + 1000 * (longest_first ? N - i : i);
    MC_CHECK(w[i].r.is(h::VAL) && w[i].tid == r.tid && w[i].at >= due);
    if (!late) MC_CHECK(w[i].at == due);
  }
}
MC_SCENARIO(P31, submission_queue_full, {.preempt = 1}, {.preempt = 2}) { full<3>(2, false); }
MC_SCENARIO(P31, rings_full, {.preempt = 1}, {.preempt = 2}) { full<5>(2, true); }
MC_SCENARIO(P31, rings_full_schedule, {.preempt = 1}, {.preempt = 2})
{
  reset();
  ctx_t c(2);
  watch w[6];
  h::gate g(6);
  for (int i = 0; i < 6; ++i)
    if (i % 2) now_(c, w[i], g);
    else after(c, 100, w[i], g);
  runner r(c);
  g.wait();
  r.stop();
  for (auto& x: w) MC_CHECK(x.r.is(h::VAL) && x.tid == r.tid);
}

// a stop request of the receiver at any time
template <class Env>
static void stop_race(long d)
{
  reset();
  ctx_t c(4);
  watch w;
  h::gate g(1);
  long t0 = mc::now();
  runner r(c);
  {
    ex::inplace_stop_source src;
    std::thread t([&] { src.request_stop(); });
    if (d < 0) now_(c, w, g, Env{{src.get_token()}});
    else after(c, d, w, g, Env{{src.get_token()}});
    g.wait();
    t.join();
  }
  r.stop();
  MC_CHECK((w.r.is(h::VAL) && w.at == t0 + std::max(d, 0L)) || w.r.is(h::STOP));
  MC_CHECK(w.tid == r.tid);
  if (d > 0) MC_CHECK(w.r.is(h::STOP) && w.at == t0);  // the request is not held up until the timer expires
  mc::outcome("%s", w.r.str().c_str());
}
MC_SCENARIO(P31, stop_schedule, {.preempt = 3}, {.preempt = 5}) { stop_race<h::stop_env>(-1); }
MC_SCENARIO(P31, stop_timer_0, {.preempt = 2}, {.preempt = 4}) { stop_race<h::stop_env>(0); }
MC_SCENARIO(P31, stop_timer, {.preempt = 2}, {.preempt = 4}) { stop_race<h::stop_env>(1000); }
MC_SCENARIO(P31, stop_timer_other_token, {.preempt = 2}, {.preempt = 4}) { stop_race<env2>(1000); }
// the timer expires while the stop request is being made
MC_SCENARIO(P31, stop_expiring_timer, {.preempt = 2, .early_timer = 1}, {.preempt = 4, .early_timer = 1})
{
  reset();
  ctx_t c(4);
  watch w;
  h::gate g(1);
  long t0 = mc::now();
  runner r(c);
  {
    ex::inplace_stop_source src;
    after(c, 1000, w, g, h::stop_env{src.get_token()});
    std::thread t([&] { src.request_stop(); });
    g.wait();
    t.join();
  }
  r.stop();
  MC_CHECK((w.r.is(h::VAL) && w.at >= t0 + 1000) || w.r.is(h::STOP));
  MC_CHECK(w.tid == r.tid);
  mc::outcome("%s", w.r.str().c_str());
}
// two timers, one of them stopped
MC_SCENARIO(P31, stop_one_of_two, {.preempt = 1}, {.preempt = 3})
{
  reset();
  ctx_t c(4);
  watch w[2];
  h::gate g(2);
  long t0 = mc::now();
  {
    ex::inplace_stop_source src, other;
    after(c, 1000, w[0], g, h::stop_env{src.get_token()});
    after(c, 1000, w[1], g, h::stop_env{other.get_token()});
    runner r(c);
    src.request_stop();
    g.wait();
    r.stop();
    MC_CHECK(w[0].r.is(h::STOP) && w[0].at == t0 && w[0].tid == r.tid);
    MC_CHECK(w[1].r.is(h::VAL) && w[1].at == t0 + 1000 && w[1].tid == r.tid);
  }
}
// a completed operation has let go of the context and of the receiver's stop source: it may outlive both
MC_SCENARIO(P31, outlives_context, {.preempt = 2}, {.preempt = 3})
{
  reset();
  watch    w;
  unsigned how = mc::choose(3, "end");
  auto     src = std::make_unique<ex::inplace_stop_source>();
  auto     c = std::make_unique<ctx_t>(4);
  auto* b = h::make(exec::schedule_after(c->get_scheduler(), std::chrono::nanoseconds(how == 0 ? 100 : 1000)), w.r,
                    h::stop_env{src->get_token()}, false);
  {
    std::atomic<int> done{0};
    b->link.then = [](void* p) noexcept { auto* d = static_cast<std::atomic<int>*>(p); d->store(1); d->notify_all(); };
    b->link.then_arg = &done;
    runner      r(*c);
    std::thread t([&] { if (how == 1) src->request_stop(); });
    b->start();
    if (how == 2) r.stop(); else { done.wait(0); r.stop(); }
    t.join();
  }
  MC_CHECK(how == 0 ? w.r.is(h::VAL) : w.r.is(h::STOP));
  if (mc::choose(2, "context first")) { c.reset(); src.reset(); } else { src.reset(); c.reset(); }
  delete b;
}
// already stopped
MC_SCENARIO(P31, stop_before_start, {.preempt = 2}, {.preempt = 4})
{
  reset();
  ctx_t c(4);
  watch w;
  h::gate g(1);
  long t0 = mc::now();
  ex::inplace_stop_source src;
  src.request_stop();
  runner r(c);
  if (mc::choose(2, "timer")) after(c, 1000, w, g, h::stop_env{src.get_token()});
  else now_(c, w, g, h::stop_env{src.get_token()});
  g.wait();
  r.stop();
  MC_CHECK(w.r.is(h::STOP) && w.at == t0 && w.tid == r.tid);
}
#endif

#if MC_PART == 1
// stopping the context: everything started completes, what was not finished with stopped
template <int N>
static void context_stop(unsigned kinds, bool cc)
{
  reset();
  ctx_t c(4);
  watch w[N];
  long t0 = mc::now();
  unsigned kind[N];
  for (auto& k: kind) k = mc::choose(kinds, "operation");
  h::gate g(N);
  auto start = [&](int i) {
    if (kind[i] == 0) now_(c, w[i], g);
    else after(c, kind[i] == 1 ? 1000 : 0, w[i], g);
  };
  runner r(c);
  std::thread t([&] { if (cc) for (int i = 0; i < N; ++i) start(i); });
  if (!cc) for (int i = 0; i < N; ++i) start(i);
  r.stop();
  t.join();
  g.wait();
  for (int i = 0; i < N; ++i)
  {
    MC_CHECK(w[i].r.is(h::STOP) || (w[i].r.is(h::VAL) && w[i].tid == r.tid && w[i].at >= t0 + (kind[i] == 1 ? 1000 : 0)));
    MC_CHECK(w[i].at == t0);
    mc::outcome("%s", w[i].r.str().c_str());
  }
}
MC_SCENARIO(P31, context_stop_1, {.preempt = 2}, {.preempt = 4}) { context_stop<1>(3, false); }
MC_SCENARIO(P31, context_stop_2, {.preempt = 1}, {.preempt = 2}) { context_stop<2>(3, false); }
MC_SCENARIO(P31, context_stop_concurrent_1, {.preempt = 2}, {.preempt = 4}) { context_stop<1>(3, true); }
MC_SCENARIO(P31, context_stop_concurrent_2, {.preempt = 1}, {.preempt = 2}) { context_stop<2>(2, true); }
// both stop requests at the same time
MC_SCENARIO(P31, both_stop, {.preempt = 2}, {.preempt = 3})
{
  reset();
  ctx_t c(4);
  watch w;
  h::gate g(1);
  long t0 = mc::now();
  ex::inplace_stop_source src;
  after(c, 1000, w, g, h::stop_env{src.get_token()});
  runner r(c);
  std::thread t([&] { src.request_stop(); });
  r.stop();
  t.join();
  g.wait();
  MC_CHECK(w.r.is(h::STOP) && w.at == t0);
}
// an operation on the context stops it
MC_SCENARIO(P31, stop_from_inside, {.preempt = 1}, {.preempt = 3})
{
  reset();
  ctx_t c(4);
  watch w[3];
  h::gate g(3);
  long t0 = mc::now();
  unsigned kind = mc::choose(2, "operation");
  runner r(c);
  after(c, 1000, w[0], g);
  go(ex::schedule(c.get_scheduler()) | ex::then([&]() noexcept {
       MC_CHECK(!c.request_stop());
       if (kind) after(c, 1000, w[2], g);
       else now_(c, w[2], g);
     }), w[1], g, h::no_env{});
  r.t.join();
  g.wait();
  MC_CHECK(w[0].r.is(h::STOP) && w[1].r.is(h::VAL) && w[2].r.is(h::STOP));
  for (auto& x: w) MC_CHECK(x.at == t0 && x.tid == r.tid);
}
// started when the context has already stopped: completes with stopped
MC_SCENARIO(P31, after_stop, {.preempt = 2}, {.preempt = 4})
{
  reset();
  ctx_t c(4);
  watch w;
  h::gate g(1);
  if (mc::choose(2, "run"))
  {
    runner r(c);
    r.stop();
  }
  else
  {
    c.request_stop();
    c.run_until_stopped();
  }
  long t0 = mc::now();
  if (mc::choose(2, "timer")) after(c, 1000, w, g);
  else now_(c, w, g);
  g.wait();
  MC_CHECK(w.r.is(h::STOP) && w.at == t0);
  // and the context can be used again after reset()
  c.reset();
  MC_CHECK(!c.stop_requested());
  watch v;
  h::gate g2(1);
  runner r(c);
  now_(c, v, g2);
  g2.wait();
  r.stop();
  MC_CHECK(v.r.is(h::VAL) && v.tid == r.tid);
}

// run_until_empty returns when, and only when, everything started before has completed; and can be called again
MC_SCENARIO(P31, until_empty, {.preempt = -1, .depth = 2}, {.preempt = -1, .depth = 3})
{
  reset();
  ctx_t c(2);
  for (int round = 0; round < mc::depth(); ++round)
  {
    unsigned n = mc::choose(unsigned(mc::depth()) + 1, "operations");
    watch w[3];
    h::gate g(int(n) + 1);
    long t0 = mc::now(), last = 0;
    for (unsigned i = 0; i < n; ++i)
    {
      unsigned k = mc::choose(2, "operation");
      if (k) after(c, 1000, w[i], g), last = 1000;
      else now_(c, w[i], g);
    }
    c.run_until_empty();
    MC_CHECK(!c.is_running() && !c.stop_requested() && mc::now() == t0 + last);
    for (unsigned i = 0; i < n; ++i) MC_CHECK(w[i].r.is(h::VAL) && w[i].tid == mc::self());
  }
}
// an operation started by a completion also belongs to it
MC_SCENARIO(P31, until_empty_nested, {.preempt = -1})
{
  reset();
  ctx_t c(2);
  watch w;
  h::gate g(1);
  auto s = c.get_scheduler();
  unsigned a = mc::choose(2, "operation"), b = mc::choose(2, "operation");
  auto mk = [s](unsigned k) { return exec::schedule_after(s, std::chrono::nanoseconds(k * 100)); };
  go(mk(a) | ex::let_value([=] { return mk(b); }) | ex::let_value([s] { return ex::schedule(s); }), w, g, h::no_env{});
  c.run_until_empty();
  MC_CHECK(w.r.is(h::VAL));
}
// started concurrently: completed by this run or by the next one
MC_SCENARIO(P31, until_empty_race, {.preempt = 3}, {.preempt = 5})
{
  reset();
  ctx_t c(2);
  watch w;
  h::gate g(1);
  bool timer = mc::choose(2, "timer");
  std::thread t([&] { timer ? after(c, 100, w, g) : now_(c, w, g); });
  c.run_until_empty();
  t.join();
  c.run_until_empty();
  MC_CHECK(w.r.is(h::VAL) && w.tid == mc::self());
}
// then run until stopped
MC_SCENARIO(P31, until_empty_then_stopped, {.preempt = 2}, {.preempt = 4})
{
  reset();
  ctx_t c(2);
  watch w, v;
  h::gate g(1), g2(1);
  now_(c, w, g);
  c.run_until_empty();
  MC_CHECK(w.r.is(h::VAL));
  runner r(c);
  now_(c, v, g2);
  g2.wait();
  MC_CHECK(v.r.is(h::VAL) && v.tid == r.tid);
  r.stop();
}
// finish() makes run_until_stopped return without stopping the context
MC_SCENARIO(P31, finish, {.preempt = 3}, {.preempt = 5})
{
  reset();
  ctx_t c(2);
  for (int i = 0; i < 2; ++i)
  {
    watch w;
    h::gate g(1);
    int  tid = -1;
    std::thread t([&] { tid = mc::self(); c.run_until_stopped(); });
    now_(c, w, g);
    g.wait();
    c.finish();
    t.join();
    MC_CHECK(w.r.is(h::VAL) && w.tid == tid && !c.stop_requested() && !c.is_running());
  }
}
// finish() or the end of run_until_empty races with a stop request: nothing is lost, and a further run finishes the stop
MC_SCENARIO(P31, finish_and_stop, {.preempt = 3}, {.preempt = 4})
{
  reset();
  ctx_t c(2);
  watch w;
  h::gate g(1);
  bool empty = mc::choose(2, "empty");
  std::thread t([&] { c.request_stop(); now_(c, w, g); });
  if (empty) c.run_until_empty();
  else
  {
    std::thread u([&] { c.finish(); });
    c.run_until_stopped();
    u.join();
  }
  t.join();
  if (!w.r.n) c.run_until_stopped();
  MC_CHECK(w.r.is(h::STOP));
}

// the sender returned by run(): one completion, after the context has left its loop
MC_SCENARIO(P31, run_sender, {.preempt = 2}, {.preempt = 4})
{
  reset();
  ctx_t c(2);
  h::rec rr;
  watch w;
  h::gate g(1), g2(1);
  unsigned how = mc::choose(3, "end");
  auto src = std::make_unique<ex::inplace_stop_source>();
  std::thread t([&] { h::go(c.run(how == 2 ? exec::until::empty : exec::until::stopped), rr, g2, h::stop_env{src->get_token()}); });
  now_(c, w, g);
  if (how != 2) g.wait();
  if (how == 0) src->request_stop();
  else if (how == 1) c.request_stop();
  g2.wait();
  src.reset();  // the completed operation has let go of it
  t.join();
  if (how == 2)
  {
    MC_CHECK(rr.is(h::VAL));
    c.run_until_empty();
    g.wait();
  }
  else MC_CHECK(rr.is(h::STOP));
  MC_CHECK(w.r.is(h::VAL) && !c.is_running());
}
// the context is already running: an error, once, and the other run is not disturbed
MC_SCENARIO(P31, run_sender_busy, {.preempt = 2}, {.preempt = 4})
{
  reset();
  ctx_t c(2);
  h::rec rr;
  watch w;
  h::gate g(1), g2(1);
  runner r(c);
  now_(c, w, g);
  g.wait();  // the context is running
  h::go(c.run(), rr, g2);
  g2.wait();
  MC_CHECK(rr.is(h::ERR, 1600));
  watch v;
  h::gate g3(1);
  now_(c, v, g3);
  g3.wait();
  MC_CHECK(v.r.is(h::VAL) && v.tid == r.tid && c.is_running());
  r.stop();
}
// never run: nothing leaks, nothing completes
MC_SCENARIO(P31, unused, {.preempt = -1})
{
  reset();
  ctx_t c(mc::choose(4, "size"));
  MC_CHECK(!c.is_running() && !c.stop_requested());
  if (mc::choose(2)) c.run_until_empty();
}
// a failing set-up is reported with its error code
MC_SCENARIO(P31, set_up_fails, {.preempt = -1})
{
  reset();
  uring::setup_error = ENOSYS;
  int code = 0;
  try { ctx_t c(2); }
  catch (std::system_error const & e) { code = e.code().value(); }
  uring::setup_error = 0;
  MC_CHECK(code == ENOSYS);
}
#endif
