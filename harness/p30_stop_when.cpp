// P30: stop_when fuses the receiver's stop token with another one.
#include "common.hpp"

namespace
{
  using stop_src = ex::inplace_stop_source;
  auto& stop_when = ex::__stop_when;

  // hands the fused token itself to a function in start()
  template <class F>
  struct with_token
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>;
    F f;
    template <class R>
    struct op
    {
      R r;
      F f;
      op(R rr, F ff) : r(std::move(rr)), f(std::move(ff)) {}
      op(op&&) = delete;
      void start() & noexcept
      {
        f(ex::get_stop_token(ex::get_env(r)));
        ex::set_value(std::move(r));
      }
    };
    template <class R>
    auto connect(R r) const -> op<R> { return op<R>(std::move(r), f); }
  };
  template <class F> with_token(F) -> with_token<F>;
  struct count_cb { int* n; void operator()() noexcept { ++*n; } };
  template <class Tok> using cb_t = ex::stop_callback_for_t<Tok, count_cb>;
}  // namespace

// a stop-aware child completing on another thread while either source is stopped
static void child_race(bool a, bool b, h::chan ch)
{
  stop_src s1, s2;
  h::rec   r;
  int      stops = 0, started = 0;
  h::gate  g(1);
  for (auto& x: h::ssrc_state) x.store(0, std::memory_order_relaxed);
  std::thread t1, t2;
  if (a) t1 = std::thread([&] { s1.request_stop(); });
  if (b) t2 = std::thread([&] { s2.request_stop(); });
  h::go(stop_when(h::ssrc(ch, 7, 0, &stops, &started), s1.get_token()), r, g, h::stop_env{s2.get_token()});
  g.wait();
  if (a) t1.join();
  if (b) t2.join();
  MC_CHECK(started == 1 && stops <= 1);
  if (ch == h::NONE) MC_CHECK(r.is(h::STOP) && stops == 1);
  else if (ch == h::VAL) MC_CHECK(r.is(h::VAL, 7) || (r.is(h::STOP) && stops == 1));
  else if (ch == h::ERR) MC_CHECK(r.is(h::ERR, 7) || (r.is(h::STOP) && stops == 1));
  mc::outcome("%s %d", r.str().c_str(), stops);
}
MC_SCENARIO(P30, stopped_by_sender_token, {.preempt = -1}) { child_race(true, false, h::NONE); }
MC_SCENARIO(P30, stopped_by_receiver_token, {.preempt = -1}) { child_race(false, true, h::NONE); }
MC_SCENARIO(P30, stopped_by_both, {.preempt = -1}, {.preempt = -1}) { child_race(true, true, h::NONE); }
MC_SCENARIO(P30, complete_vs_sender_token, {.preempt = -1}, {.preempt = -1, .stale = 1}) { child_race(true, false, h::pick_chan()); }
MC_SCENARIO(P30, complete_vs_receiver_token, {.preempt = -1}, {.preempt = -1, .stale = 1}) { child_race(false, true, h::pick_chan()); }
MC_SCENARIO(P30, complete_vs_both, {.preempt = 4}, {.preempt = 5}) { child_race(true, true, h::VAL); }

// either source may be destroyed as soon as the operation has completed; nothing is registered any more
MC_SCENARIO(P30, deregistered, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  auto*    s1 = new stop_src;
  auto*    s2 = new stop_src;
  h::rec   r;
  h::chan  ch = h::pick_chan();
  unsigned early = mc::choose(3, "stopped before");
  if (early == 1) s1->request_stop();
  if (early == 2) s2->request_stop();
  for (auto& x: h::ssrc_state) x.store(0, std::memory_order_relaxed);
  struct both { stop_src *a, *b; } k{s1, s2};
  auto* b = h::make(stop_when(h::ssrc(ch, 7, 0), s1->get_token()), r, h::stop_env{s2->get_token()}, false);
  b->link.then = [](void* p) noexcept { auto* k = static_cast<both*>(p); delete k->a; delete k->b; };
  b->link.then_arg = &k;
  b->start();
  mc::join_all();
  delete b;
  MC_CHECK(r.n == 1);
  if (early) MC_CHECK(r.is(h::STOP));
  mc::outcome("%d %s", early, r.str().c_str());
}
// the token seen by the child: requested iff one of the sources was
MC_SCENARIO(P30, token_state, {.preempt = -1})
{
  stop_src s1, s2;
  h::rec   r;
  unsigned k = mc::choose(4);
  if (k & 1) s1.request_stop();
  if (k & 2) s2.request_stop();
  int n = 0, n2 = 0;
  h::go(stop_when(with_token{[&](auto tok) {
          MC_CHECK(tok.stop_requested() == (k != 0));
          MC_CHECK(tok.stop_possible());
          MC_CHECK(tok == tok);
          {
            cb_t<decltype(tok)> c(tok, count_cb{&n});
            MC_CHECK(n == (k != 0));
            unsigned m = mc::choose(3);
            if (m == 1) { s1.request_stop(); s2.request_stop(); }
            if (m == 2) { s2.request_stop(); s1.request_stop(); }
            MC_CHECK(n == (k != 0 || m != 0));
            if (m) { cb_t<decltype(tok)> d(std::move(tok), count_cb{&n2}); MC_CHECK(n2 == 1); }
          }
        }}, s1.get_token()), r, h::stop_env{s2.get_token()});
  MC_CHECK(r.is(h::VAL));
}
// a bare callback on the fused token, registered and deregistered while both sources are stopped
static void bare(bool a, bool b)
{
  stop_src s1, s2;
  h::rec   r;
  std::thread t1, t2;
  if (a) t1 = std::thread([&] { s1.request_stop(); });
  if (b) t2 = std::thread([&] { s2.request_stop(); });
  h::go(stop_when(with_token{[&](auto tok) {
          int* n = new int(0);
          bool before = tok.stop_requested();
          { cb_t<decltype(tok)> c(tok, count_cb{n}); }
          bool after = tok.stop_requested();
          int  v = *n;  // must not race with the callback
          delete n;
          MC_CHECK(v <= 1 && !(before && !v) && !(v && !after));
          mc::outcome("%d", v);
        }}, s1.get_token()), r, h::stop_env{s2.get_token()});
  if (a) t1.join();
  if (b) t2.join();
  MC_CHECK(r.is(h::VAL));
}
MC_SCENARIO(P30, callback_one, {.preempt = -1}, {.preempt = -1, .stale = 1}) { if (mc::choose(2)) bare(true, false); else bare(false, true); }
MC_SCENARIO(P30, callback_both, {.preempt = 5}, {.preempt = -1}) { bare(true, true); }
// a callback that stays registered until both requests returned runs exactly once
MC_SCENARIO(P30, exactly_once, {.preempt = -1}, {.preempt = -1})
{
  stop_src s1, s2;
  h::rec   r;
  int      n = 0;
  h::go(stop_when(with_token{[&](auto tok) {
          cb_t<decltype(tok)> c(tok, count_cb{&n});
          std::thread t1([&] { s1.request_stop(); });
          std::thread t2([&] { s2.request_stop(); });
          t1.join();
          t2.join();
          MC_CHECK(n == 1);
        }}, s1.get_token()), r, h::stop_env{s2.get_token()});
  MC_CHECK(r.is(h::VAL));
}
// deregistration waits for a callback that another thread is running, whichever of the two sources started it
MC_SCENARIO(P30, destroy_waits, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  stop_src s1, s2;
  h::rec   r;
  unsigned which = mc::choose(2);
  h::go(stop_when(with_token{[&](auto tok) {
          int* payload = new int(5);
          int  inside = 0;
          auto f = [&, payload]() noexcept { inside = 1; mc::point(&inside); MC_CHECK(*payload == 5); inside = 2; };
          auto* c = new ex::stop_callback_for_t<decltype(tok), decltype(f)>(tok, f);
          std::thread t([&] { (which ? s1 : s2).request_stop(); });
          delete c;
          MC_CHECK(inside != 1);
          delete payload;
          t.join();
        }}, s1.get_token()), r, h::stop_env{s2.get_token()});
  MC_CHECK(r.is(h::VAL));
}
// a callback that deregisters itself (what a completing operation does), while the other source is stopped, too
namespace
{
  template <class Tok>
  struct self_del
  {
    struct fn { self_del* p; void operator()() noexcept { ++p->n; p->cb.reset(); } };
    int n = 0;
    std::optional<ex::stop_callback_for_t<Tok, fn>> cb;
  };
}  // namespace
MC_SCENARIO(P30, self_destroy, {.preempt = -1}, {.preempt = -1})
{
  stop_src s1, s2;
  h::rec   r;
  h::go(stop_when(with_token{[&](auto tok) {
          using sd = self_del<decltype(tok)>;
          sd x;
          x.cb.emplace(tok, typename sd::fn{&x});
          std::thread t1([&] { s1.request_stop(); });
          std::thread t2([&] { s2.request_stop(); });
          t1.join();
          t2.join();
          MC_CHECK(x.n == 1 && !x.cb);
        }}, s1.get_token()), r, h::stop_env{s2.get_token()});
  MC_CHECK(r.is(h::VAL));
}
// both tokens come from the same source
MC_SCENARIO(P30, same_source, {.preempt = 5}, {.preempt = 7})
{
  stop_src s;
  h::rec   r;
  int      stops = 0;
  h::gate  g(1);
  for (auto& x: h::ssrc_state) x.store(0, std::memory_order_relaxed);
  std::thread t([&] { s.request_stop(); });
  h::go(stop_when(h::ssrc(mc::choose(2) ? h::VAL : h::NONE, 7, 0, &stops), s.get_token()), r, g, h::stop_env{s.get_token()});
  g.wait();
  t.join();
  MC_CHECK(stops <= 1 && (r.is(h::VAL, 7) || (r.is(h::STOP) && stops == 1)));
  mc::outcome("%s", r.str().c_str());
}
// three tokens
MC_SCENARIO(P30, nested, {.preempt = 3}, {.preempt = -1})
{
  stop_src s[3];
  h::rec   r;
  int      stops = 0;
  h::gate  g(1);
  unsigned i = mc::choose(3), j = mc::choose(3);
  for (auto& x: h::ssrc_state) x.store(0, std::memory_order_relaxed);
  std::thread t([&] { s[i].request_stop(); });
  std::thread u([&] { s[j].request_stop(); });
  h::go(stop_when(stop_when(h::ssrc(h::NONE, 7, 0, &stops), s[0].get_token()), s[1].get_token()), r, g, h::stop_env{s[2].get_token()});
  g.wait();
  t.join();
  u.join();
  MC_CHECK(stops == 1 && r.is(h::STOP));
}
// a receiver without a stop token, and an unstoppable extra token
MC_SCENARIO(P30, degenerate, {.preempt = -1})
{
  stop_src s;
  h::rec   r[2];
  int      stops = 0;
  h::gate  g(2);
  for (auto& x: h::ssrc_state) x.store(0, std::memory_order_relaxed);
  std::thread t([&] { s.request_stop(); });
  h::go(stop_when(h::ssrc(h::NONE, 7, 0, &stops), s.get_token()), r[0], g);
  h::go(stop_when(h::src{h::VAL, 3}, ex::never_stop_token{}), r[1], g, h::stop_env{s.get_token()});
  g.wait();
  t.join();
  MC_CHECK(stops == 1 && r[0].is(h::STOP) && r[1].is(h::VAL, 3));
}
