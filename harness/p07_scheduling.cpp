// P07: completions happen on the scheduler that was asked for
#include "common.hpp"
#include <exec/reschedule.hpp>
#include <exec/single_thread_context.hpp>
using h::tv;
using TS = h::thread_sched;

namespace
{
  // expected outcome of `continues_on(src(c), sched(sc))`
  void expect_hop(h::rec const & r, h::chan c, int v, h::chan sc, int id)
  {
    MC_CHECK(r.n == 1 && r.ctx == id);
    if (sc == h::ERR) MC_CHECK(r.is(h::ERR, 500 + id));
    else if (sc == h::STOP) MC_CHECK(r.is(h::STOP));
    else if (c == h::STOP) MC_CHECK(r.is(h::STOP));
    else MC_CHECK(r.is(c, v));
  }
}  // namespace

// continues_on: every channel of the predecessor crosses to the scheduler, with the values intact
MC_SCENARIO(P07, continues_on_all, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  h::chan c = h::pick_chan(), sc = h::pick_chan();
  h::mode m = h::pick_mode();
  int st = 0, done = 0;
  h::rec r;
  r.need = &done; r.nneed = 1;
  h::go(ex::continues_on(h::src{c, 5, m, &st, 3, &done}, TS{7, sc}), r);
  mc::join_all();
  MC_CHECK(st == 1);
  expect_hop(r, c, 5, sc, 7);
  mc::outcome("%d%d%d", c, sc, m);
}
MC_SCENARIO(P07, continues_on_chain, {.preempt = -1})
{
  h::chan c = h::pick_chan(), s1 = h::pick_chan(), s2 = h::pick_chan();
  h::rec r;
  int mid = 0;
  h::go(h::src{c, 5, h::REMOTE, nullptr, 3} | ex::continues_on(TS{7, s1}) | ex::then([&](tv t) { mid = h::ctx_id; return t; }) | ex::continues_on(TS{8, s2}), r);
  mc::join_all();
  if (s1 == h::VAL && c == h::VAL) MC_CHECK(mid == 7); else MC_CHECK(mid == 0);
  if (s2 != h::VAL) expect_hop(r, c, 5, s2, 8);
  else if (s1 == h::VAL) expect_hop(r, c, 5, h::VAL, 8);
  else { MC_CHECK(r.n == 1 && r.ctx == 8); if (s1 == h::ERR) MC_CHECK(r.is(h::ERR, 507)); else MC_CHECK(r.is(h::STOP)); }
  mc::outcome("%d%d%d", c, s1, s2);
}
// several values
MC_SCENARIO(P07, continues_on_values, {.preempt = -1})
{
  h::rec r;
  h::go(ex::just(1, tv(2), tv(3)) | ex::continues_on(TS{7}), r);
  mc::join_all();
  MC_CHECK(r.is(h::VAL) && r.nv == 3 && r.v[0] == 1 && r.v[1] == 2 && r.v[2] == 3 && r.ctx == 7);
}
// the stored values are decayed copies of the arguments, taken when the predecessor completes
MC_SCENARIO(P07, continues_on_references, {.preempt = -1})
{
  h::rec r;
  auto s = h::make_custom<ex::set_value_t(tv&, tv const &)>([](auto& r) noexcept {
      tv a(1); tv const b(2);
      ex::set_value(std::move(r), a, b);
      a = tv(9);
    }, h::pick_mode());
  h::go(s | ex::continues_on(TS{7}), r);
  mc::join_all();
  MC_CHECK(r.is(h::VAL, 1, 2) && r.ctx == 7);
}
// starts_on: the child is started on the scheduler, or not at all if scheduling fails
MC_SCENARIO(P07, starts_on_all, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  h::chan c = h::pick_chan(), sc = h::pick_chan();
  h::mode m = h::pick_mode();
  int st = 0, where = 0;
  h::rec r;
  h::go(ex::starts_on(TS{7, sc}, ex::just() | ex::let_value([&] { where = h::ctx_id; return h::src{c, 5, m, &st, 3}; })), r);
  mc::join_all();
  MC_CHECK(r.n == 1);
  if (sc == h::VAL)
  {
    MC_CHECK(st == 1 && where == 7 && r.ctx == (m == h::INLINE ? 7 : 3));
    if (c == h::STOP) MC_CHECK(r.is(h::STOP)); else MC_CHECK(r.is(c, 5));
  }
  else
  {
    MC_CHECK(st == 0 && where == 0 && r.ctx == 7);
    if (sc == h::ERR) MC_CHECK(r.is(h::ERR, 507)); else MC_CHECK(r.is(h::STOP));
  }
  mc::outcome("%d%d%d", c, sc, m);
}
// on(sch, sndr): runs there, comes back to where it was started, on every channel
MC_SCENARIO(P07, on_sender, {.preempt = -1})
{
  h::chan c = h::pick_chan(), sc = h::pick_chan(), back = h::pick_chan();
  h::mode m = h::pick_mode();
  int st = 0, where = 0;
  h::rec r;
  h::go(ex::on(TS{7, sc}, ex::just() | ex::let_value([&] { where = h::ctx_id; return h::src{c, 5, m, &st, 3}; })), r, h::sched_env<TS>{TS{9, back}});
  mc::join_all();
  MC_CHECK(where == (sc == h::VAL ? 7 : 0) && st == (sc == h::VAL));
  MC_CHECK(r.n == 1 && r.ctx == 9);
  if (back == h::ERR) MC_CHECK(r.is(h::ERR, 509));
  else if (back == h::STOP) MC_CHECK(r.is(h::STOP));
  else if (sc == h::ERR) MC_CHECK(r.is(h::ERR, 507));
  else if (sc == h::STOP || c == h::STOP) MC_CHECK(r.is(h::STOP));
  else MC_CHECK(r.is(c, 5));
  mc::outcome("%d%d%d%d", c, sc, back, m);
}
// sndr | on(sch, closure): the closure runs on sch, the result comes back to the completion scheduler of sndr
MC_SCENARIO(P07, on_closure, {.preempt = -1})
{
  h::chan sc = h::pick_chan(), back = h::VAL;
  int w0 = 0, w1 = 0;
  bool thrown = mc::choose(2);
  h::rec r;
  h::go(ex::schedule(TS{2, back}) | ex::then([&] { w0 = h::ctx_id; return tv(4); })
          | ex::on(TS{7, sc}, ex::then([&](tv t) { w1 = h::ctx_id; if (thrown) throw h::boom{3}; return tv(t.get() + 1); })), r);
  mc::join_all();
  MC_CHECK(w0 == 2 && r.n == 1 && r.ctx == 2);
  if (sc == h::VAL) MC_CHECK(w1 == 7);
  if (sc == h::ERR) MC_CHECK(r.is(h::ERR, 507));
  else if (sc == h::STOP) MC_CHECK(r.is(h::STOP));
  else if (thrown) MC_CHECK(r.is(h::ERR, 1003));
  else MC_CHECK(r.is(h::VAL, 5));
  mc::outcome("%d%d", sc, thrown);
}
// nested on: every level returns to the level above
MC_SCENARIO(P07, on_nested, {.preempt = -1}, {.preempt = -1})
{
  int w[3] = {};
  h::rec r;
  h::go(ex::on(TS{7}, ex::just(1) | ex::then([&](int i) { w[0] = h::ctx_id; return i; })
                        | ex::let_value([&](int i) { return ex::on(TS{8}, ex::just(i + 1) | ex::then([&](int k) { w[1] = h::ctx_id; return k; })); })
                        | ex::then([&](int i) { w[2] = h::ctx_id; return i + 1; })),
        r, h::sched_env<TS>{TS{9}});
  mc::join_all();
  MC_CHECK(w[0] == 7 && w[1] == 8 && w[2] == 7 && r.is(h::VAL, 3) && r.ctx == 9);
}
// the environment below starts_on / on / continues_on names the right scheduler
MC_SCENARIO(P07, current_scheduler, {.preempt = -1})
{
  int a = 0, b = 0, c = 0;
  h::rec r;
  h::go(ex::on(TS{7}, ex::read_env(ex::get_start_scheduler) | ex::then([&](auto s) { a = s.id; })), r, h::sched_env<TS>{TS{9}});
  h::rec r2;
  h::go(ex::starts_on(TS{6}, ex::read_env(ex::get_start_scheduler) | ex::then([&](auto s) { b = s.id; })), r2, h::sched_env<TS>{TS{9}});
  h::rec r3;
  h::go(ex::read_env(ex::get_start_scheduler) | ex::then([&](auto s) { c = s.id; }), r3, h::sched_env<TS>{TS{9}});
  mc::join_all();
  MC_CHECK(r.is(h::VAL) && r2.is(h::VAL) && r3.is(h::VAL) && a == 7 && b == 6 && c == 9);
}
// what a sender says about where it completes is where it completes
MC_SCENARIO(P07, advertised_scheduler, {.preempt = -1})
{
  auto s1 = ex::just(tv(1)) | ex::continues_on(TS{7}) | ex::then([](tv t) { return t; });
  auto s2 = ex::starts_on(TS{8}, ex::just(tv(1)));
  auto s3 = ex::schedule(TS{6}) | ex::then([] { return tv(1); });
  auto s4 = ex::schedule(TS{5}) | ex::on(TS{4}, ex::then([] { return tv(1); }));
  int a1 = ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(s1), ex::env<>{}).id;
  int a2 = ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(s2), ex::env<>{}).id;
  int a3 = ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(s3), ex::env<>{}).id;
  int a4 = ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(s4), ex::env<>{}).id;
  h::rec r[4];
  h::go(std::move(s1), r[0]); h::go(std::move(s2), r[1]); h::go(std::move(s3), r[2]); h::go(std::move(s4), r[3]);
  mc::join_all();
  MC_CHECK(r[0].ctx == a1 && r[1].ctx == a2 && r[2].ctx == a3 && r[3].ctx == a4);
  MC_CHECK(a1 == 7 && a2 == 8 && a3 == 6 && a4 == 5);
}
// affine: comes back to the scheduler of the environment on every channel
MC_SCENARIO(P07, affine, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  h::chan c = h::pick_chan();
  h::mode m = h::pick_mode();
  ex::run_loop loop;
  auto sch = loop.get_scheduler();
  h::rec r;
  struct fin { ex::run_loop* l; };
  auto* b = h::make(ex::affine(h::src{c, 5, m, nullptr, 3}), r, h::sched_env<decltype(sch)>{sch});
  b->link.then = [](void* p) noexcept { static_cast<ex::run_loop*>(p)->finish(); };
  b->link.then_arg = &loop;
  std::thread t([&] { h::ctx_id = 9; loop.run(); });
  b->start();
  t.join();
  mc::join_all();
  MC_CHECK(r.n == 1 && r.ctx == 9);
  if (c == h::STOP) MC_CHECK(r.is(h::STOP)); else MC_CHECK(r.is(c, 5));
  mc::outcome("%d%d", c, m);
}
// reschedule goes through the scheduler of the environment
MC_SCENARIO(P07, reschedule, {.preempt = -1})
{
  h::chan c = h::pick_chan(), sc = h::pick_chan();
  h::mode m = h::pick_mode();
  h::rec r;
  h::go(exec::reschedule(h::src{c, 5, m, nullptr, 3}), r, h::sched_env<TS>{TS{9, sc}});
  mc::join_all();
  expect_hop(r, c, 5, sc, 9);
  mc::outcome("%d%d%d", c, sc, m);
}
// real execution contexts: hop between two owned threads
MC_SCENARIO(P07, two_threads_hop, {.preempt = 3}, {.preempt = 6})
{
  h::chan c = h::pick_chan();
  std::thread::id w[3];
  h::rec r;
  std::thread::id id1, id2;
  {
    exec::single_thread_context a, b;
    id1 = a.get_thread_id(); id2 = b.get_thread_id();
    auto s = ex::starts_on(a.get_scheduler(), ex::just() | ex::let_value([&] { w[0] = std::this_thread::get_id(); return h::src{c, 5, h::INLINE}; }))
           | ex::continues_on(b.get_scheduler())
           | ex::then([&](tv t) { w[1] = std::this_thread::get_id(); return t.get(); })
           | ex::upon_error([&](auto e) { w[1] = std::this_thread::get_id(); return int(h::conv(e)) + 100; })
           | ex::upon_stopped([&] { w[1] = std::this_thread::get_id(); return -1; });
    auto q = ex::sync_wait(std::move(s));
    MC_CHECK(q);
    int v = std::get<0>(*q);
    MC_CHECK(v == (c == h::VAL ? 5 : c == h::ERR ? 105 : -1));
    MC_CHECK(w[0] == id1 && w[1] == id2);
  }
  mc::outcome("%d", c);
}
