// P04: when_all
#include "common.hpp"
using h::tv;

namespace
{
  // The combined result that is allowed, given what each child did (they all completed) and whether the
  // parent asked to stop at some time.
  void check(h::rec const & r, h::chan const * c, int n, bool stop_asked)
  {
    MC_CHECK(r.n == 1);
    bool err = false, stop = false;
    for (int i = 0; i < n; ++i) { err |= c[i] == h::ERR; stop |= c[i] == h::STOP; }
    if (err)
    {
      MC_CHECK(r.ch == h::ERR && r.nv == 1);  // an error is never lost to a stop
      bool ok = false;
      for (int i = 0; i < n; ++i) ok |= c[i] == h::ERR && r.v[0] == i + 1;
      MC_CHECK(ok);
    }
    else if (stop) MC_CHECK(r.ch == h::STOP);
    else if (r.ch == h::STOP) MC_CHECK(stop_asked);
    else
    {
      MC_CHECK(r.ch == h::VAL && r.nv == n);
      for (int i = 0; i < n; ++i) MC_CHECK(r.v[i] == i + 1);
    }
  }
}  // namespace

// all channel/inline/remote combinations of two children
MC_SCENARIO(P04, two, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  h::chan c[2] = {h::pick_chan(), h::pick_chan()};
  h::mode m[2] = {h::pick_mode(), h::pick_mode()};
  int done[2] = {}, st[2] = {};
  h::rec r;
  r.need = done; r.nneed = 2;
  h::go(ex::when_all(h::src{c[0], 1, m[0], &st[0], 0, &done[0]}, h::src{c[1], 2, m[1], &st[1], 0, &done[1]}), r);
  mc::join_all();
  MC_CHECK(st[0] == 1 && st[1] == 1);
  check(r, c, 2, false);
  if (m[0] == h::INLINE && c[0] == h::ERR) MC_CHECK(r.v[0] == 1);  // the first error wins
  mc::outcome("%d%d%d%d%s", c[0], c[1], m[0], m[1], r.str().c_str());
}
MC_SCENARIO(P04, three, {.preempt = 4}, {.preempt = -1})
{
  h::chan c[3] = {h::pick_chan(), h::pick_chan(), h::pick_chan()};
  int done[3] = {};
  h::rec r;
  r.need = done; r.nneed = 3;
  h::go(ex::when_all(h::src{c[0], 1, h::REMOTE, 0, 0, &done[0]}, h::src{c[1], 2, h::REMOTE, 0, 0, &done[1]}, h::src{c[2], 3, h::pick_mode(), 0, 0, &done[2]}), r);
  mc::join_all();
  check(r, c, 3, false);
  mc::outcome("%d%d%d%s", c[0], c[1], c[2], r.str().c_str());
}
// parent stop racing with the children's completions
MC_SCENARIO(P04, parent_stop_race, {.preempt = 4}, {.preempt = -1})
{
  h::chan c[2] = {h::pick_chan(), h::pick_chan()};
  h::mode m1 = h::pick_mode();
  int done[2] = {};
  h::rec r;
  r.need = done; r.nneed = 2;
  ex::inplace_stop_source ss;
  std::thread t([&] { ss.request_stop(); });
  h::go(ex::when_all(h::src{c[0], 1, h::REMOTE, 0, 0, &done[0]}, h::src{c[1], 2, m1, 0, 0, &done[1]}), r, h::stop_env{ss.get_token()});
  mc::join_all();
  t.join();
  check(r, c, 2, true);
  mc::outcome("%d%d%d%s", c[0], c[1], m1, r.str().c_str());
}
// ... when everything else is sequential: the race with the last arrival only
MC_SCENARIO(P04, parent_stop_last_arrival, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  h::chan c[2] = {h::pick_chan(), h::pick_chan()};
  h::rec r;
  ex::inplace_stop_source ss;
  std::thread t([&] { ss.request_stop(); });
  h::go(ex::when_all(h::src{c[0], 1}, h::src{c[1], 2}), r, h::stop_env{ss.get_token()});
  t.join();
  check(r, c, 2, true);
  mc::outcome("%d%d%s", c[0], c[1], r.str().c_str());
}
// children that only complete when they are stopped; failing sibling asks them to
MC_SCENARIO(P04, sibling_stopped, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  h::chan c = mc::choose(2) ? h::ERR : h::STOP;
  h::mode m = h::pick_mode();
  int stops = 0, done[2] = {};
  h::rec r;
  r.need = done; r.nneed = 2;
  if (mc::choose(2, "order"))
    h::go(ex::when_all(h::ssrc(h::NONE, 0, 0, &stops, nullptr, &done[0]), h::src{c, 2, m, 0, 0, &done[1]}), r);
  else
    h::go(ex::when_all(h::src{c, 2, m, 0, 0, &done[1]}, h::ssrc(h::NONE, 0, 0, &stops, nullptr, &done[0])), r);
  mc::join_all();
  MC_CHECK(stops == 1);
  if (c == h::ERR) MC_CHECK(r.is(h::ERR, 2)); else MC_CHECK(r.is(h::STOP));
  mc::outcome("%d%d", c, m);
}
// parent stop reaches every child, whenever it comes
MC_SCENARIO(P04, parent_stop_forwarded, {.preempt = 5}, {.preempt = 7})
{
  int stops[2] = {}, done[2] = {};
  h::rec r;
  r.need = done; r.nneed = 2;
  ex::inplace_stop_source ss;
  unsigned k = mc::choose(3, "when");
  std::optional<std::thread> t;
  if (k == 0) ss.request_stop();
  if (k == 1) t.emplace([&] { ss.request_stop(); });
  h::go(ex::when_all(h::ssrc(h::NONE, 0, 0, &stops[0], nullptr, &done[0]), h::ssrc(h::NONE, 0, 1, &stops[1], nullptr, &done[1])), r, h::stop_env{ss.get_token()});
  if (k == 2) ss.request_stop();
  if (t) t->join();
  MC_CHECK(r.is(h::STOP) && stops[0] == 1 && stops[1] == 1);
  mc::outcome("%u", k);
}
// stop-aware children which also complete by themselves
MC_SCENARIO(P04, parent_stop_and_completion, {.preempt = 3}, {.preempt = 5})
{
  h::chan a = h::pick_chan();
  int stops[2] = {}, done[2] = {};
  h::rec r;
  r.need = done; r.nneed = 2;
  ex::inplace_stop_source ss;
  std::thread t([&] { ss.request_stop(); });
  h::go(ex::when_all(h::ssrc(a, 1, 0, &stops[0], nullptr, &done[0]), h::ssrc(h::NONE, 2, 1, &stops[1], nullptr, &done[1])), r, h::stop_env{ss.get_token()});
  t.join();
  mc::join_all();
  MC_CHECK(r.n == 1 && stops[1] == 1);
  if (r.ch == h::ERR) MC_CHECK(a == h::ERR && r.v[0] == 1); else MC_CHECK(r.ch == h::STOP);
  mc::outcome("%d%s", a, r.str().c_str());
}
// the callback registered with the parent's token is gone when the receiver is completed: the stop source may go
// away although the operation state is kept
MC_SCENARIO(P04, deregistered_on_completion, {.preempt = -1}, {.preempt = -1})
{
  h::chan c[2] = {h::pick_chan(), h::pick_chan()};
  h::mode m1 = h::pick_mode();
  h::rec r;
  auto* ss = new ex::inplace_stop_source;
  bool early = mc::choose(2, "stop before start");
  if (early) ss->request_stop();
  auto* b = h::make(ex::when_all(h::src{c[0], 1, m1}, h::src{c[1], 2, h::INLINE}), r, h::stop_env{ss->get_token()}, false);
  b->link.then = [](void* p) noexcept { delete static_cast<ex::inplace_stop_source*>(p); };
  b->link.then_arg = ss;
  b->start();
  mc::join_all();
  delete b;
  check(r, c, 2, early);
  mc::outcome("%d%d%d%d%s", c[0], c[1], m1, early, r.str().c_str());
}
// concurrent completions with values of several arities; the tuple is concatenated in argument order
MC_SCENARIO(P04, arity, {.preempt = -1})
{
  h::mode m0 = h::pick_mode(), m1 = h::pick_mode(), m2 = h::pick_mode();
  auto a = h::make_custom<ex::set_value_t(int, tv)>([](auto& r) noexcept { ex::set_value(std::move(r), 1, tv(2)); }, m0);
  auto b = h::make_custom<ex::set_value_t()>([](auto& r) noexcept { ex::set_value(std::move(r)); }, m1);
  auto d = h::make_custom<ex::set_value_t(tv, int, long)>([](auto& r) noexcept { ex::set_value(std::move(r), tv(3), 4, 5l); }, m2);
  h::rec r;
  h::go(ex::when_all(a, b, d), r);
  mc::join_all();
  MC_CHECK(r.is(h::VAL) && r.nv == 5 && r.v[0] == 1 && r.v[1] == 2 && r.v[2] == 3 && r.v[3] == 4 && r.v[4] == 5);
}
MC_SCENARIO(P04, with_variant, {.preempt = -1})
{
  h::mode m0 = h::pick_mode(), m1 = h::pick_mode();
  unsigned k = mc::choose(4);
  auto a = h::make_custom<ex::set_value_t(int), ex::set_value_t(int, tv), ex::set_error_t(int), ex::set_stopped_t()>(
    [k](auto& r) noexcept {
      if (k == 0) ex::set_value(std::move(r), 1);
      else if (k == 1) ex::set_value(std::move(r), 1, tv(2));
      else if (k == 2) ex::set_error(std::move(r), 9);
      else ex::set_stopped(std::move(r));
    }, m0);
  auto b = h::make_custom<ex::set_value_t(tv), ex::set_value_t()>([](auto& r) noexcept { ex::set_value(std::move(r), tv(6)); }, m1);
  h::rec r;
  h::go(ex::when_all_with_variant(a, b), r);
  mc::join_all();
  if (k == 0) MC_CHECK(r.is(h::VAL) && r.nv == 4 && r.v[0] == 101 && r.v[1] == 1 && r.v[2] == 101 && r.v[3] == 6);
  if (k == 1) MC_CHECK(r.is(h::VAL) && r.nv == 5 && r.v[0] == 102 && r.v[1] == 1 && r.v[2] == 2 && r.v[3] == 101 && r.v[4] == 6);
  if (k == 2) MC_CHECK(r.is(h::ERR, 9));
  if (k == 3) MC_CHECK(r.is(h::STOP));
  mc::outcome("%u", k);
}
// zero and one child; nested
MC_SCENARIO(P04, small_and_nested, {.preempt = 4}, {.preempt = -1})
{
  unsigned k = mc::choose(3);
  h::chan c[3] = {h::pick_chan(), h::VAL, h::VAL};
  h::rec r;
  if (k == 0) { h::go(ex::when_all(), r); MC_CHECK(r.is(h::VAL) && r.nv == 0); return; }
  if (k == 1) h::go(ex::when_all(h::src{c[0], 1, h::REMOTE}), r);
  if (k == 2)
  {
    c[1] = h::pick_chan(); c[2] = h::pick_chan();
    h::go(ex::when_all(h::src{c[0], 1, h::REMOTE}, ex::when_all(h::src{c[1], 2, h::REMOTE}, h::src{c[2], 3, h::INLINE})), r);
  }
  mc::join_all();
  check(r, c, k == 1 ? 1 : 3, false);
  mc::outcome("%u%s", k, r.str().c_str());
}
// the deprecated transfer forms behave as when_all | continues_on
MC_SCENARIO(P04, transfer, {.preempt = -1}, {.preempt = -1})
{
  h::chan c[2] = {h::pick_chan(), h::pick_chan()};
  h::rec r;
  int ctx = -1;
  h::go(ex::transfer_when_all(h::thread_sched{7}, h::src{c[0], 1, h::REMOTE}, h::src{c[1], 2, h::INLINE})
          | ex::then([&](tv a, tv b) { ctx = h::ctx_id; return std::make_tuple(std::move(a), std::move(b)); })
          | ex::upon_error([&](auto e) { ctx = h::ctx_id; return std::make_tuple(tv(int(h::conv(e))), tv(-1)); })
          | ex::upon_stopped([&] { ctx = h::ctx_id; return std::make_tuple(tv(-2), tv(-2)); }), r);
  mc::join_all();
  MC_CHECK(r.is(h::VAL) && r.nv == 2 && ctx == 7);
  if (c[0] == h::ERR || c[1] == h::ERR) MC_CHECK(r.v[1] == -1 && ((r.v[0] == 1 && c[0] == h::ERR) || (r.v[0] == 2 && c[1] == h::ERR)));
  else if (c[0] == h::STOP || c[1] == h::STOP) MC_CHECK(r.v[0] == -2);
  else MC_CHECK(r.v[0] == 1 && r.v[1] == 2);
  mc::outcome("%s", r.str().c_str());
}
