// P11: repeat_n, repeat_until, repeat.
// A child sender whose every iteration chooses its own outcome and completion mode; the harness counts connections,
// live operations and starts, and compares with a loop.
#include "common.hpp"
#include <exec/repeat_n.hpp>
#include <exec/repeat_until.hpp>
#include <exec/trampoline_scheduler.hpp>
using h::tv;

namespace
{
  // what one iteration does
  enum out { NEXT, DONE, FAIL, STOPPED };
  struct plan
  {
    int  n = 0;             // iterations planned
    out  o[8] = {};
    h::mode m[8] = {};
    int  starts = 0, live = 0, conn = 0, finished = 0;
    int  stop_at = -1;      // request stop from within this iteration
    ex::inplace_stop_source* src = nullptr;
    int  maxlive = 0;
    int  copy_throws_at = -1;   // the copy of the child made for this connect throws
    int  copies = 0;
    char const * lo = nullptr, * hi = nullptr;  // stack extent of the starts on the main thread
  };

  // V: value signature.  void: set_value_t(), bool: set_value_t(bool)
  template <class V> struct vsig { using type = ex::set_value_t(V); };
  template <> struct vsig<void> { using type = ex::set_value_t(); };

  template <class V, bool Errs = true>
  struct iter
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = std::conditional_t<Errs,
      ex::completion_signatures<typename vsig<V>::type, ex::set_error_t(tv), ex::set_stopped_t()>,
      ex::completion_signatures<typename vsig<V>::type, ex::set_stopped_t()>>;
    plan* p;
    tv    payload{9};   // the child is copied for every iteration: it must stay intact
    explicit iter(plan* pp) : p(pp) {}
    iter(iter&&) = default;
    iter(iter const & o) : p(o.p), payload(o.payload) { if (p->copies++ == p->copy_throws_at) throw h::boom{}; }
    template <class R>
    struct op
    {
      R     r;
      plan* p;
      tv    e;
      bool  started = false;
      op(R rr, plan* pp, int v) : r(std::move(rr)), p(pp), e(v)
      {
        ++p->conn;
        if (++p->live > p->maxlive) p->maxlive = p->live;
        if (p->live > 1) mc::fail("a new iteration was connected while the previous operation is still alive");
      }
      op(op&&) = delete;
      ~op() { --p->live; }
      void finish(int k) noexcept
      {
        ++p->finished;
        if (p->stop_at == k && p->src) p->src->request_stop();
        switch (p->o[k])
        {
        case FAIL:
          if constexpr (Errs) { delete e.p; e.p = new int(40 + k); ex::set_error(std::move(r), std::move(e)); }
          break;
        case STOPPED: ex::set_stopped(std::move(r)); break;
        default:
          if constexpr (std::is_void_v<V>) ex::set_value(std::move(r));
          else ex::set_value(std::move(r), V(p->o[k] == DONE));
        }
      }
      void start() & noexcept
      {
        char here;
        if (mc::self() == 0)
        {
          if (!p->lo || &here < p->lo) p->lo = &here;
          if (!p->hi || &here > p->hi) p->hi = &here;
        }
        if (started) mc::fail("an iteration was started twice");
        started = true;
        int k = p->starts++;
        if (p->finished != k) mc::fail("iteration %d started before iteration %d had finished", k, k - 1);
        if (k >= p->n) mc::fail("iteration %d started although the repetition should have ended after %d", k + 1, p->n);
        if (p->m[k] == h::INLINE) finish(k);
        else std::thread([this, k] { finish(k); }).detach();
      }
    };
    template <class R> auto connect(R r) && -> op<R> { return op<R>(std::move(r), p, payload.get()); }
    template <class R> auto connect(R r) const & -> op<R>
    {
      return op<R>(std::move(r), p, payload.get());
    }
  };
  void fill(plan& p, int n, out last)
  {
    p.n = n;
    for (int i = 0; i < n; ++i) { p.o[i] = i + 1 == n ? last : NEXT; p.m[i] = h::pick_mode(); }
  }
  void verify(plan const & p, h::rec const & r, int starts)
  {
    MC_CHECK(r.n == 1);
    if (p.starts != starts) mc::fail("%d iteration(s) were run, expected %d", p.starts, starts);
    MC_CHECK(p.live == 0 && p.finished == starts);
  }
}  // namespace

// repeat_n(k): k runs, or up to the first failure
MC_SCENARIO(P11, repeat_n, {.preempt = -1})
{
  int  k = mc::choose(4, "count");
  int  n = k ? 1 + mc::choose(k, "ends at") : 0;
  out  last = k == 0 ? NEXT : n < k ? (mc::choose(2, "how") ? FAIL : STOPPED) : (mc::choose(3, "last") == 0 ? NEXT : mc::choose(2, "how") ? FAIL : STOPPED);
  plan p;
  fill(p, n, last);
  h::rec r;
  r.zero = &p.live;
  h::go(iter<void>(&p) | exec::repeat_n(std::size_t(k)), r);
  mc::join_all();
  verify(p, r, n);
  if (last == FAIL) MC_CHECK(r.is(h::ERR, 40 + n - 1));
  else if (last == STOPPED) MC_CHECK(r.is(h::STOP));
  else MC_CHECK(r.is(h::VAL) && r.nv == 0);
  mc::outcome("%d%s", n, r.str().c_str());
}
// repeat_until: until an iteration yields true
MC_SCENARIO(P11, repeat_until, {.preempt = -1})
{
  int  n = 1 + mc::choose(3, "iterations");
  out  last = out(1 + mc::choose(3, "last"));
  plan p;
  fill(p, n, last);
  h::rec r;
  r.zero = &p.live;
  h::go(iter<bool>(&p) | exec::repeat_until(), r);
  mc::join_all();
  verify(p, r, n);
  if (last == FAIL) MC_CHECK(r.is(h::ERR, 40 + n - 1));
  else if (last == STOPPED) MC_CHECK(r.is(h::STOP));
  else MC_CHECK(r.is(h::VAL) && r.nv == 0);
  mc::outcome("%d%s", n, r.str().c_str());
}
// repeat: until an iteration fails or is stopped
MC_SCENARIO(P11, repeat, {.preempt = -1})
{
  int  n = 1 + mc::choose(3, "iterations");
  out  last = mc::choose(2, "last") ? FAIL : STOPPED;
  plan p;
  fill(p, n, last);
  h::rec r;
  r.zero = &p.live;
  h::go(iter<void>(&p) | exec::repeat(), r);
  mc::join_all();
  verify(p, r, n);
  if (last == FAIL) MC_CHECK(r.is(h::ERR, 40 + n - 1));
  else MC_CHECK(r.is(h::STOP));
  mc::outcome("%d%s", n, r.str().c_str());
}
// A stop request made while iteration k runs ends the repetition before iteration k+1.
MC_SCENARIO(P11, stop_between, {.preempt = -1})
{
  int  which = mc::choose(3, "algorithm");
  int  n = 3;
  plan p;
  fill(p, n, which == 0 ? NEXT : which == 1 ? DONE : STOPPED);
  ex::inplace_stop_source ss;
  p.src = &ss;
  p.stop_at = mc::choose(n, "stop in");
  h::rec r;
  r.zero = &p.live;
  h::stop_env e{ss.get_token()};
  if (which == 0) h::go(iter<void>(&p) | exec::repeat_n(3), r, e);
  else if (which == 1) h::go(iter<bool>(&p) | exec::repeat_until(), r, e);
  else h::go(iter<void>(&p) | exec::repeat(), r, e);
  mc::join_all();
  verify(p, r, p.stop_at + 1);
  if (p.stop_at == n - 1 && which < 2) MC_CHECK(r.is(h::VAL));
  else MC_CHECK(r.is(h::STOP));
}
// stop requested before start: no iteration at all
MC_SCENARIO(P11, stop_first, {.preempt = -1})
{
  plan p;
  int  k = mc::choose(3, "count");
  ex::inplace_stop_source ss;
  ss.request_stop();
  h::rec r[3];
  h::stop_env e{ss.get_token()};
  h::go(iter<void>(&p) | exec::repeat_n(std::size_t(k)), r[0], e);
  h::go(iter<bool>(&p) | exec::repeat_until(), r[1], e);
  h::go(iter<void>(&p) | exec::repeat(), r[2], e);
  MC_CHECK(r[0].is(k ? h::STOP : h::VAL) && r[1].is(h::STOP) && r[2].is(h::STOP) && p.starts == 0 && p.live == 0);
}
// a concurrent stop request
MC_SCENARIO(P11, stop_race, {.preempt = 4}, {.preempt = -1})
{
  int  which = mc::choose(2, "algorithm");
  plan p;
  fill(p, 2, which == 0 ? NEXT : DONE);
  ex::inplace_stop_source ss;
  h::rec r;
  r.zero = &p.live;
  h::stop_env e{ss.get_token()};
  std::thread t([&] { ss.request_stop(); });
  if (which == 0) h::go(iter<void>(&p) | exec::repeat_n(2), r, e);
  else h::go(iter<bool>(&p) | exec::repeat_until(), r, e);
  mc::join_all();
  t.join();
  verify(p, r, p.starts);
  MC_CHECK(r.ch == h::VAL ? p.starts == 2 : r.ch == h::STOP && p.starts < 2);
  mc::outcome("%d%d%s", which, p.starts, r.str().c_str());
}
// Connecting iteration k throws: an error is delivered, nothing is started any more, nothing leaks
MC_SCENARIO(P11, connect_throws, {.preempt = -1})
{
  int  which = mc::choose(3, "algorithm");
  int  at = mc::choose(5, "throwing copy");
  plan p;
  fill(p, 3, which == 0 ? NEXT : which == 1 ? DONE : STOPPED);
  p.copy_throws_at = at;
  h::rec r;
  bool thrown = false;
  try
  {
    if (which == 0) h::go(iter<void>(&p) | exec::repeat_n(3), r);
    else if (which == 1) h::go(iter<bool>(&p) | exec::repeat_until(), r);
    else h::go(iter<void>(&p) | exec::repeat(), r);
  }
  catch (h::boom const &) { thrown = true; }
  mc::join_all();
  MC_CHECK(p.live == 0 && p.finished == p.starts);
  if (thrown) MC_CHECK(r.n == 0 && p.starts == 0);
  else if (p.copies > at) MC_CHECK(r.is(h::ERR, 1077) && p.starts < 3);
  else MC_CHECK(p.starts == 3 && r.is(which < 2 ? h::VAL : h::STOP));
  mc::outcome("%d%d%s", thrown, p.starts, r.str().c_str());
}
// the conversion of the yielded object to bool: value, throwing
namespace
{
  struct flag
  {
    int v;
    operator bool() const { if (v == 2) throw h::boom{}; return v == 1; }
  };
}
MC_SCENARIO(P11, conversion, {.preempt = -1})
{
  int runs = 0, end = 1 + mc::choose(3, "iterations");
  bool throws = mc::choose(2, "throws");
  h::rec r, r2;
  h::go(ex::just() | ex::then([&] { ++runs; return flag{runs < end ? 0 : throws ? 2 : 1}; }) | exec::repeat_until(), r);
  MC_CHECK(runs == end);
  if (throws) MC_CHECK(r.is(h::ERR, 1077)); else MC_CHECK(r.is(h::VAL));
  runs = 0;
  h::go(ex::just() | ex::then([&]() noexcept { ++runs; return std::true_type{}; }) | exec::repeat_until(), r2);
  MC_CHECK(runs == 1 && r2.is(h::VAL) && r2.nv == 0);
}
// copying the child's error throws
namespace
{
  struct bad_err
  {
    int v;
    explicit bad_err(int x) : v(x) {}
    bad_err(bad_err const & o) : v(o.v) { if (h::tick()) throw h::boom{}; }
  };
  struct raw
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures<ex::set_value_t(bool), ex::set_error_t(bad_err)>;
    int at;
    template <class R> struct op
    {
      R r; bad_err e{5}; int at;
      op(R rr, int a) : r(std::move(rr)), at(a) {}
      op(op&&) = delete;
      void start() & noexcept { h::throw_at = at; ex::set_error(std::move(r), std::move(e)); }
    };
    template <class R> auto connect(R r) const -> op<R> { return op<R>(std::move(r), at); }
  };
  struct rawv : raw
  {
    using completion_signatures = ex::completion_signatures<ex::set_value_t(), ex::set_error_t(bad_err)>;
  };
  struct rc
  {
    using receiver_concept = ex::receiver_t;
    h::rec* r;
    void set_value() noexcept { r->hit(h::VAL); }
    void set_stopped() noexcept { r->hit(h::STOP); }
    void set_error(bad_err&& e) noexcept { h::throw_at = 0; r->hit(h::ERR); r->push(e.v); }
    void set_error(bad_err const & e) noexcept { h::throw_at = 0; r->hit(h::ERR); r->push(e.v); }
    void set_error(std::exception_ptr e) noexcept { h::throw_at = 0; r->hit(h::ERR); r->push(h::conv(e)); }
  };
}
MC_SCENARIO(P11, error_copy_throws, {.preempt = -1})
{
  int which = mc::choose(3, "algorithm");
  h::throw_at = 0;
  int at = mc::choose(4, "throwing copy");
  h::rec r;
  static_assert(!std::is_nothrow_copy_constructible_v<bad_err>);
  auto run = [&](auto s) { auto op = ex::connect(std::move(s), rc{&r}); ex::start(op); };
  if (which == 0) run(rawv{{at}} | exec::repeat_n(2));
  else if (which == 1) run(raw{at} | exec::repeat_until());
  else run(rawv{{at}} | exec::repeat());
  h::throw_at = 0;
  MC_CHECK(r.n == 1 && r.ch == h::ERR && r.nv == 1 && (r.v[0] == 5 || r.v[0] == 1077));
  if (at == 0) MC_CHECK(r.v[0] == 5);
}
// Nesting: repeat inside repeat, inline and remote
MC_SCENARIO(P11, nested, {.preempt = -1})
{
  int a = mc::choose(3, "outer"), b = mc::choose(3, "inner");
  plan p;
  p.n = a * b;
  for (int i = 0; i < p.n; ++i) p.m[i] = i < 3 ? h::pick_mode() : h::INLINE;
  h::rec r;
  r.zero = &p.live;
  h::go(iter<void>(&p) | exec::repeat_n(std::size_t(b)) | exec::repeat_n(std::size_t(a)), r);
  mc::join_all();
  verify(p, r, a * b);
  MC_CHECK(r.is(h::VAL));
}
// Long inline repetitions do not grow the stack.
MC_SCENARIO(P11, flat, {.preempt = 0})
{
  int which = mc::choose(4, "algorithm");
  int n = 600;
  char const * lo = nullptr, * hi = nullptr;
  int runs = 0;
  auto body = [&] { char c; if (!lo || &c < lo) lo = &c; if (!hi || &c > hi) hi = &c; ++runs; };
  h::rec r;
  if (which == 0) h::go(ex::just() | ex::then(body) | exec::repeat_n(600), r);
  else if (which == 1) h::go(ex::just() | ex::then([&] { body(); return runs == n; }) | exec::repeat_until(), r);
  else if (which == 2) h::go(ex::just() | ex::let_value([&] { body(); return ex::just(); }) | ex::then([&] { if (runs == n) throw 3; }) | exec::repeat(), r);
  else h::go(ex::just() | ex::then(body) | exec::repeat_n(20) | exec::repeat_n(30), r);
  MC_CHECK(r.n == 1 && runs == n);
  if (hi - lo > 40000) mc::fail("600 inline repetitions used %ld bytes of stack", long(hi - lo));
  mc::outcome("%d", int(hi - lo > 4096));
}
// The sender may be connected several times as an lvalue
MC_SCENARIO(P11, reconnect, {.preempt = 0})
{
  plan p;
  p.n = 6;
  auto s = iter<void>(&p) | exec::repeat_n(2);
  h::rec r[3];
  for (auto& x : r) { h::go(s, x); MC_CHECK(x.is(h::VAL)); }
  MC_CHECK(p.starts == 6 && p.live == 0);
}
