// P05: exec::when_any
#include "common.hpp"
#include <exec/when_any.hpp>
using h::tv;

namespace
{
  // The result of one of the children (which all completed); set_stopped if the parent was asked to stop.
  void check(h::rec const & r, h::chan const * c, int n, bool stop_asked)
  {
    MC_CHECK(r.n == 1);
    if (r.ch == h::STOP && stop_asked) return;
    bool ok = false;
    for (int i = 0; i < n; ++i)
      ok |= r.ch == c[i] && (c[i] == h::STOP || (r.nv == 1 && r.v[0] == i + 1));
    MC_CHECK(ok);
  }
}  // namespace

MC_SCENARIO(P05, two, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  h::chan c[2] = {h::pick_chan(), h::pick_chan()};
  h::mode m[2] = {h::pick_mode(), h::pick_mode()};
  int done[2] = {}, st[2] = {};
  h::rec r;
  r.need = done; r.nneed = 2;
  h::go(exec::when_any(h::src{c[0], 1, m[0], &st[0], 0, &done[0]}, h::src{c[1], 2, m[1], &st[1], 0, &done[1]}), r);
  mc::join_all();
  MC_CHECK(st[0] == 1 && st[1] == 1);
  check(r, c, 2, false);
  if (m[0] == h::INLINE) check(r, c, 1, false);  // child 0 completed before child 1 was started
  mc::outcome("%d%d%d%d%s", c[0], c[1], m[0], m[1], r.str().c_str());
}
MC_SCENARIO(P05, three, {.preempt = 4}, {.preempt = -1})
{
  h::chan c[3] = {h::pick_chan(), h::pick_chan(), h::pick_chan()};
  int done[3] = {};
  h::rec r;
  r.need = done; r.nneed = 3;
  h::go(exec::when_any(h::src{c[0], 1, h::REMOTE, 0, 0, &done[0]}, h::src{c[1], 2, h::REMOTE, 0, 0, &done[1]}, h::src{c[2], 3, h::pick_mode(), 0, 0, &done[2]}), r);
  mc::join_all();
  check(r, c, 3, false);
  mc::outcome("%d%d%d%s", c[0], c[1], c[2], r.str().c_str());
}
// the order in which the children complete is forced: the first one must win
MC_SCENARIO(P05, first_wins, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  h::chan c[2] = {h::pick_chan(), h::pick_chan()};
  bool swap = mc::choose(2, "which first");
  int done[2] = {};
  h::rec r;
  r.need = done; r.nneed = 2;
  std::atomic<int> go{0};
  // the second child completes from its thread only after the first child's completion call has returned
  auto mk = [&](int i, bool first) {
    return h::make_custom<ex::set_value_t(int), ex::set_error_t(int), ex::set_stopped_t()>(
      [&, i, first](auto& r) noexcept {
        auto* g = &go;  // the operation (and this closure in it) may be gone after completing
        bool  f = first;
        if (!f) g->wait(0);
        done[i] = 1;
        if (c[i] == h::VAL) ex::set_value(std::move(r), i + 1);
        else if (c[i] == h::ERR) ex::set_error(std::move(r), i + 1);
        else ex::set_stopped(std::move(r));
        if (f) { g->store(1); g->notify_all(); }
      }, h::REMOTE);
  };
  h::go(exec::when_any(mk(0, !swap), mk(1, swap)), r);
  mc::join_all();
  int w = swap ? 1 : 0;
  MC_CHECK(r.n == 1 && r.ch == c[w] && (r.ch == h::STOP || r.v[0] == w + 1));
  mc::outcome("%d%d%d", c[0], c[1], swap);
}
// a child that only finishes when stopped is stopped by the first completion of any kind
MC_SCENARIO(P05, losers_stopped, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  h::chan c = h::pick_chan();
  h::mode m = h::pick_mode();
  int stops = 0, done[2] = {};
  h::rec r;
  r.need = done; r.nneed = 2;
  if (mc::choose(2, "order"))
    h::go(exec::when_any(h::ssrc(h::NONE, 0, 0, &stops, nullptr, &done[0]), h::src{c, 2, m, 0, 0, &done[1]}), r);
  else
    h::go(exec::when_any(h::src{c, 2, m, 0, 0, &done[1]}, h::ssrc(h::NONE, 0, 0, &stops, nullptr, &done[0])), r);
  mc::join_all();
  MC_CHECK(stops == 1);
  MC_CHECK(r.n == 1 && r.ch == c && (c == h::STOP || r.v[0] == 2));
  mc::outcome("%d%d", c, m);
}
MC_SCENARIO(P05, parent_stop_race, {.preempt = 3}, {.preempt = 5})
{
  h::chan c[2] = {h::pick_chan(), h::pick_chan()};
  h::mode m1 = h::pick_mode();
  int done[2] = {}, st[2] = {};
  h::rec r;
  ex::inplace_stop_source ss;
  std::thread t([&] { ss.request_stop(); });
  h::go(exec::when_any(h::src{c[0], 1, h::REMOTE, &st[0], 0, &done[0]}, h::src{c[1], 2, m1, &st[1], 0, &done[1]}), r, h::stop_env{ss.get_token()});
  mc::join_all();
  t.join();
  check(r, c, 2, true);
  MC_CHECK(st[0] == done[0] && st[1] == done[1]);
  mc::outcome("%d%d%d%s", c[0], c[1], m1, r.str().c_str());
}
MC_SCENARIO(P05, parent_stop_last_arrival, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  h::chan c[2] = {h::pick_chan(), h::pick_chan()};
  h::rec r;
  ex::inplace_stop_source ss;
  std::thread t([&] { ss.request_stop(); });
  h::go(exec::when_any(h::src{c[0], 1}, h::src{c[1], 2}), r, h::stop_env{ss.get_token()});
  t.join();
  check(r, c, 1, true);
  mc::outcome("%d%d%s", c[0], c[1], r.str().c_str());
}
MC_SCENARIO(P05, parent_stop_forwarded, {.preempt = 5}, {.preempt = 7})
{
  int stops[2] = {}, st[2] = {};
  h::rec r;
  ex::inplace_stop_source ss;
  unsigned k = mc::choose(3, "when");
  std::optional<std::thread> t;
  if (k == 0) ss.request_stop();
  if (k == 1) t.emplace([&] { ss.request_stop(); });
  h::go(exec::when_any(h::ssrc(h::NONE, 0, 0, &stops[0], &st[0]), h::ssrc(h::NONE, 0, 1, &stops[1], &st[1])), r, h::stop_env{ss.get_token()});
  if (k == 2) ss.request_stop();
  if (t) t->join();
  MC_CHECK(r.is(h::STOP) && stops[0] == st[0] && stops[1] == st[1] && st[0] == st[1]);
  mc::outcome("%u%d", k, st[0]);
}
MC_SCENARIO(P05, parent_stop_and_completion, {.preempt = 3}, {.preempt = 5})
{
  h::chan a = h::pick_chan();
  int stops[2] = {};
  h::rec r;
  ex::inplace_stop_source ss;
  std::thread t([&] { ss.request_stop(); });
  h::go(exec::when_any(h::ssrc(a, 1, 0, &stops[0]), h::ssrc(h::NONE, 2, 1, &stops[1])), r, h::stop_env{ss.get_token()});
  t.join();
  mc::join_all();
  MC_CHECK(r.n == 1);
  if (r.ch != h::STOP) MC_CHECK(r.ch == a && r.v[0] == 1);
  mc::outcome("%d%s", a, r.str().c_str());
}
// the stop source of the receiver's environment may go away as soon as the receiver is completed
MC_SCENARIO(P05, deregistered_on_completion, {.preempt = -1}, {.preempt = -1})
{
  h::chan c[2] = {h::pick_chan(), h::pick_chan()};
  h::mode m1 = h::pick_mode();
  h::rec r;
  auto* ss = new ex::inplace_stop_source;
  bool early = mc::choose(2, "stop before start");
  if (early) ss->request_stop();
  auto* b = h::make(exec::when_any(h::src{c[0], 1, m1}, h::src{c[1], 2, h::INLINE}), r, h::stop_env{ss->get_token()}, false);
  b->link.then = [](void* p) noexcept { delete static_cast<ex::inplace_stop_source*>(p); };
  b->link.then_arg = ss;
  b->start();
  mc::join_all();
  delete b;
  check(r, c, 2, early);
  mc::outcome("%d%d%d%d%s", c[0], c[1], m1, early, r.str().c_str());
}
// ... also when the request comes while start() runs
MC_SCENARIO(P05, deregistered_stop_during_start, {.preempt = 5}, {.preempt = 7})
{
  struct sh { ex::inplace_stop_source ss; std::atomic<int> refs{2}; void drop() { if (refs.fetch_sub(1) == 1) delete this; } };
  auto* s = new sh;
  h::rec r;
  h::chan c[2] = {h::VAL, h::VAL};
  auto* b = h::make(exec::when_any(h::src{c[0], 1, h::pick_mode()}, h::src{c[1], 2, h::INLINE}), r, h::stop_env{s->ss.get_token()}, false);
  b->link.then = [](void* p) noexcept { static_cast<sh*>(p)->drop(); };
  b->link.then_arg = s;
  std::thread t([&] { s->ss.request_stop(); s->drop(); });
  b->start();
  t.join();
  mc::join_all();
  delete b;
  check(r, c, 2, true);
  mc::outcome("%s", r.str().c_str());
}
// different result types of the children; the winner's type arrives
MC_SCENARIO(P05, types, {.preempt = -1})
{
  h::mode m0 = h::pick_mode(), m1 = h::pick_mode();
  auto a = h::make_custom<ex::set_value_t(int, tv)>([](auto& r) noexcept { ex::set_value(std::move(r), 1, tv(2)); }, m0);
  auto b = h::make_custom<ex::set_value_t(), ex::set_error_t(std::error_code)>([](auto& r) noexcept { ex::set_error(std::move(r), std::make_error_code(std::errc::timed_out)); }, m1);
  h::rec r;
  h::go(exec::when_any(a, b), r);
  mc::join_all();
  if (r.ch == h::VAL) MC_CHECK(r.nv == 2 && r.v[0] == 1 && r.v[1] == 2);
  else MC_CHECK(r.is(h::ERR, 2000 + int(std::errc::timed_out)) && m0 == h::REMOTE);
  mc::outcome("%s", r.str().c_str());
}
MC_SCENARIO(P05, nested, {.preempt = 3}, {.preempt = 5})
{
  h::chan c[3] = {h::pick_chan(), h::pick_chan(), h::pick_chan()};
  h::rec r;
  h::go(exec::when_any(h::src{c[0], 1, h::REMOTE}, exec::when_any(h::src{c[1], 2, h::REMOTE}, h::src{c[2], 3, h::INLINE})), r);
  mc::join_all();
  // the inner when_any has its own stop token: stopped by the outer one it reports set_stopped
  check(r, c, 3, true);
  mc::outcome("%s", r.str().c_str());
}
// The parent asks to stop strictly before the last child completes: the result is stopped, whatever the children produced.
MC_SCENARIO(P05, stop_before_last, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  h::chan c[2] = {h::pick_chan(), h::pick_chan()};
  int when = mc::choose(3, "stop: before both, between, after both");
  int done[2] = {};
  h::rec r;
  r.need = done; r.nneed = 2;
  ex::inplace_stop_source ss;
  std::atomic<int> go[2] = {}, fin[2] = {};
  auto mk = [&](int i) {
    return h::make_custom<ex::set_value_t(int), ex::set_error_t(int), ex::set_stopped_t()>(
      [&, i](auto& r) noexcept {
        auto* f = &fin[i];
        go[i].wait(0);
        done[i] = 1;
        if (c[i] == h::VAL) ex::set_value(std::move(r), i + 1);
        else if (c[i] == h::ERR) ex::set_error(std::move(r), i + 1);
        else ex::set_stopped(std::move(r));
        f->store(1); f->notify_all();
      }, h::REMOTE);
  };
  h::go(exec::when_any(mk(0), mk(1)), r, h::stop_env{ss.get_token()});
  for (int k = 0; k < 3; ++k)
  {
    if (k == when) ss.request_stop();
    if (k < 2) { go[k].store(1); go[k].notify_all(); fin[k].wait(0); }
  }
  mc::join_all();
  MC_CHECK(r.n == 1);
  if (when < 2) MC_CHECK(r.ch == h::STOP);
  else MC_CHECK(r.ch == c[0] && (c[0] == h::STOP || r.v[0] == 1));
}
