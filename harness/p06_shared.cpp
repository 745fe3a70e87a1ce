// P06: exec::split and exec::ensure_started
#include "common.hpp"
#include <exec/ensure_started.hpp>
#include <exec/split.hpp>
using h::tv;

namespace
{
  void same(h::rec const & r, h::chan c, int v)
  {
    MC_CHECK(r.n == 1 && r.ch == c);
    if (c != h::STOP) MC_CHECK(r.nv == 1 && r.v[0] == v);
  }
}  // namespace

// two consumers started from different threads, all completion kinds, inline or remote source
MC_SCENARIO(P06, split_two_threads, {.preempt = 5}, {.preempt = -1})
{
  h::chan c = h::pick_chan();
  h::mode m = h::pick_mode();
  int st = 0;
  h::rec r[2];
  {
    auto s = exec::split(h::src{c, 5, m, &st});
    auto* b0 = h::make(s, r[0]);
    auto* b1 = h::make(std::move(s), r[1]);
    MC_CHECK(st == 0);
    std::thread t([&] { b1->start(); });
    b0->start();
    t.join();
  }
  mc::join_all();
  MC_CHECK(st == 1);
  same(r[0], c, 5); same(r[1], c, 5);
  mc::outcome("%d%d%d%d", c, m, r[0].tid, r[1].tid);
}
// three consumers, the last one after everything is over
MC_SCENARIO(P06, split_late, {.preempt = 5}, {.preempt = -1})
{
  h::chan c = h::pick_chan();
  h::mode m = h::pick_mode();
  int st = 0;
  h::rec r[3];
  {
    auto s = exec::split(h::src{c, 5, m, &st});
    h::go(s, r[0]);
    h::go(s, r[1]);
    mc::join_all();
    same(r[0], c, 5); same(r[1], c, 5);
    h::go(s, r[2]);
    same(r[2], c, 5);
  }
  MC_CHECK(st == 1);
}
// one consumer is stopped while the other stays: it is completed with stopped or with the result; the source is not
// asked to stop
MC_SCENARIO(P06, split_one_stops, {.preempt = 4}, {.preempt = 6})
{
  h::chan c = h::pick_chan();
  int stops = 0, st = 0;
  h::rec r[2];
  ex::inplace_stop_source ss;
  {
    auto s = exec::split(h::ssrc(c, 5, 0, &stops, &st));
    auto* b0 = h::make(s, r[0]);
    auto* b1 = h::make(std::move(s), r[1], h::stop_env{ss.get_token()});
    unsigned k = mc::choose(3, "when");
    if (k == 0) ss.request_stop();
    std::optional<std::thread> t;
    if (k == 1) t.emplace([&] { ss.request_stop(); });
    b0->start();
    b1->start();
    if (k == 2) ss.request_stop();
    if (t) t->join();
    mc::outcome("%u", k);
  }
  mc::join_all();
  MC_CHECK(st == 1 && stops == 0);
  same(r[0], c, 5);
  if (r[1].ch != h::STOP) same(r[1], c, 5); else MC_CHECK(r[1].n == 1);
  mc::outcome("%s", r[1].str().c_str());
}
// every consumer is stopped, concurrently: the source (which only finishes when stopped) is stopped and freed
MC_SCENARIO(P06, split_all_stop, {.preempt = 5}, {.preempt = -1})
{
  int stops = 0, st = 0;
  h::rec r[2];
  ex::inplace_stop_source s0, s1;
  {
    auto s = exec::split(h::ssrc(h::NONE, 5, 0, &stops, &st));
    h::go(s, r[0], h::stop_env{s0.get_token()});
    h::go(std::move(s), r[1], h::stop_env{s1.get_token()});
  }
  std::thread a([&] { s0.request_stop(); });
  std::thread b([&] { s1.request_stop(); });
  a.join(); b.join();
  MC_CHECK(st == 1);
  MC_CHECK(r[0].is(h::STOP) && r[1].is(h::STOP));
  if (stops != 1) mc::fail("every consumer is gone but the source was not asked to stop");
}
// consumers that only hold a handle also count, and so do their concurrent destructions
MC_SCENARIO(P06, split_drop_handles, {.preempt = -1}, {.preempt = -1})
{
  int stops = 0, st = 0;
  h::rec r;
  ex::inplace_stop_source ss;
  auto s = std::make_unique<decltype(exec::split(h::ssrc(h::NONE, 5, 0)))>(exec::split(h::ssrc(h::NONE, 5, 0, &stops, &st)));
  h::go(*s, r, h::stop_env{ss.get_token()});
  unsigned k = mc::choose(2);
  if (k == 0)
  {
    ss.request_stop();
    MC_CHECK(r.is(h::STOP));
    MC_CHECK(stops == 0);
    s.reset();
  }
  else
  {
    std::thread a([&] { ss.request_stop(); });
    s.reset();
    a.join();
  }
  MC_CHECK(r.is(h::STOP) && st == 1);
  if (stops != 1) mc::fail("every consumer is gone but the source was not asked to stop");
  mc::outcome("%u", k);
}
// never started: source not started, everything freed
MC_SCENARIO(P06, split_never_started, {.preempt = 0})
{
  int st = 0;
  h::rec r[2];
  ex::inplace_stop_source ss;
  ss.request_stop();
  {
    auto s = exec::split(h::src{h::VAL, 5, h::INLINE, &st});
    delete h::make(s, r[0]);
    h::go(s, r[1], h::stop_env{ss.get_token()});
  }
  MC_CHECK(st == 0 && r[0].n == 0 && r[1].is(h::STOP));
}
// completion, stop and a late consumer at the same time
MC_SCENARIO(P06, split_stop_vs_completion, {.preempt = 5}, {.preempt = -1})
{
  h::chan c = h::pick_chan();
  int stops = 0;
  h::rec r;
  ex::inplace_stop_source ss;
  h::go(exec::split(h::ssrc(c, 5, 0, &stops)), r, h::stop_env{ss.get_token()});
  std::thread t([&] { ss.request_stop(); });
  t.join();
  mc::join_all();
  if (r.ch != h::STOP) same(r, c, 5); else MC_CHECK(r.n == 1);
  mc::outcome("%d%s%d", c, r.str().c_str(), stops);
}

// ensure_started: started at once, completes later or earlier than the consumer
MC_SCENARIO(P06, ensure, {.preempt = -1}, {.preempt = -1})
{
  h::chan c = h::pick_chan();
  h::mode m = h::pick_mode();
  int st = 0;
  h::rec r;
  {
    auto s = exec::ensure_started(h::src{c, 5, m, &st});
    MC_CHECK(st == 1);
    h::go(std::move(s), r);
  }
  mc::join_all();
  MC_CHECK(st == 1);
  same(r, c, 5);
  mc::outcome("%d%d%d", c, m, r.tid);
}
MC_SCENARIO(P06, ensure_abandoned, {.preempt = 6}, {.preempt = -1})
{
  unsigned k = mc::choose(2, "connect");
  int stops = 0, st = 0;
  h::chan c = h::chan(mc::choose(4));
  h::rec r;
  {
    auto s = exec::ensure_started(h::ssrc(c, 5, 0, &stops, &st));
    if (k == 1) delete h::make(std::move(s), r);
  }
  mc::join_all();
  MC_CHECK(st == 1 && r.n == 0);
  if (c == h::NONE) MC_CHECK(stops == 1);
  mc::outcome("%d%d%u", c, stops, k);
}
MC_SCENARIO(P06, ensure_stopped, {.preempt = 4}, {.preempt = 6})
{
  int stops = 0, st = 0;
  h::chan c = h::chan(mc::choose(4));
  h::rec r;
  ex::inplace_stop_source ss;
  unsigned k = mc::choose(2);
  std::optional<std::thread> t;
  if (k == 0) ss.request_stop(); else t.emplace([&] { ss.request_stop(); });
  h::go(exec::ensure_started(h::ssrc(c, 5, 0, &stops, &st)), r, h::stop_env{ss.get_token()});
  if (t) t->join();
  mc::join_all();
  MC_CHECK(st == 1);
  if (r.ch != h::STOP) same(r, c, 5); else MC_CHECK(r.n == 1);
  if (c == h::NONE) MC_CHECK(stops == 1);
  mc::outcome("%d%s%d", c, r.str().c_str(), stops);
}
// the stop token of a consumer is not used after that consumer was completed
MC_SCENARIO(P06, deregistered_on_completion, {.preempt = 4}, {.preempt = -1})
{
  h::chan c = h::pick_chan();
  h::mode m = h::pick_mode();
  h::rec r;
  auto* ss = new ex::inplace_stop_source;
  bool early = mc::choose(2, "stop before start");
  bool ens = mc::choose(2, "ensure");
  if (early) ss->request_stop();
  auto run = [&](auto snd) {
    auto* b = h::make(std::move(snd), r, h::stop_env{ss->get_token()}, false);
    b->link.then = [](void* p) noexcept { delete static_cast<ex::inplace_stop_source*>(p); };
    b->link.then_arg = ss;
    b->start();
    mc::join_all();
    delete b;
  };
  if (ens) run(exec::ensure_started(h::src{c, 5, m})); else run(exec::split(h::src{c, 5, m}));
  if (early && r.ch == h::STOP) MC_CHECK(r.n == 1); else same(r, c, 5);
  mc::outcome("%d%d%d%d%s", c, m, early, ens, r.str().c_str());
}
// storing the result throws: every consumer gets that exception
MC_SCENARIO(P06, store_throws, {.preempt = 0})
{
  tv keep(3);
  auto mk = [&] { return h::make_custom<ex::set_value_t(tv const &)>([&](auto& r) noexcept { h::throw_at = 1; ex::set_value(std::move(r), std::as_const(keep)); h::throw_at = 0; }, h::INLINE); };
  h::rec r[3];
  {
    auto s = exec::split(mk());
    h::go(s, r[0]);
    h::go(s, r[1]);
  }
  h::go(exec::ensure_started(mk()), r[2]);
  for (auto& x : r) MC_CHECK(x.is(h::ERR, 1077));
}
// split delivers by const reference to every consumer, ensure_started by rvalue
MC_SCENARIO(P06, reference_kind, {.preempt = 0})
{
  bool ok = false;
  auto s = exec::split(ex::just(tv(4)));
  ex::sync_wait(s | ex::then([&]<class T>(T&& t) { ok = std::is_same_v<T, tv const &> && t.get() == 4; }));
  MC_CHECK(ok);
  ok = false;
  ex::sync_wait(s | ex::then([&]<class T>(T&& t) { ok = std::is_same_v<T, tv const &> && t.get() == 4; }));
  MC_CHECK(ok);
  ok = false;
  ex::sync_wait(exec::ensure_started(ex::just(tv(4))) | ex::then([&]<class T>(T&& t) { ok = !std::is_lvalue_reference_v<T> && t.get() == 4; }));
  MC_CHECK(ok);
}
