// P03: sync_wait / sync_wait_with_variant
#include "common.hpp"
using h::tv;

using h::make_custom;

MC_SCENARIO(P03, kinds, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  h::chan c = h::pick_chan();
  h::mode m = h::pick_mode();
  int st = 0;
  int got = -1;
  try
  {
    auto r = ex::sync_wait(h::src{c, 42, m, &st});
    if (r) { MC_CHECK(c == h::VAL); got = std::get<0>(*r).get(); MC_CHECK(got == 42); }
    else MC_CHECK(c == h::STOP);
  }
  catch (int e) { MC_CHECK(c == h::ERR && e == 42); got = 1; }
  MC_CHECK(st == 1);
  mc::join_all();
  mc::outcome("%d%d", c, m);
}

// every error type is rethrown as documented; values of arity 0, 1 and 2
MC_SCENARIO(P03, error_types, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  unsigned k = mc::choose(6);
  h::mode m = h::pick_mode();
  auto s = make_custom<ex::set_value_t(int, tv), ex::set_error_t(std::exception_ptr), ex::set_error_t(std::error_code), ex::set_error_t(int), ex::set_error_t(h::boom), ex::set_stopped_t()>(
    [k](auto& r) noexcept {
      switch (k)
      {
      case 0: ex::set_value(std::move(r), 1, tv(2)); break;
      case 1: ex::set_error(std::move(r), std::make_exception_ptr(std::string("a string long enough to be on the heap ....."))); break;
      case 2: ex::set_error(std::move(r), std::make_error_code(std::errc::timed_out)); break;
      case 3: ex::set_error(std::move(r), 99); break;
      case 4: ex::set_error(std::move(r), h::boom{5}); break;
      default: ex::set_stopped(std::move(r));
      }
    }, m);
  unsigned got = 100;
  try
  {
    auto r = ex::sync_wait(s);
    if (r) { got = 0; MC_CHECK(std::get<0>(*r) == 1 && std::get<1>(*r).get() == 2); }
    else got = 5;
  }
  catch (std::string const & e) { got = 1; MC_CHECK(e.size() == 44 || e.substr(0, 8) == "a string"); }
  catch (std::system_error const & e) { got = 2; MC_CHECK(e.code() == std::errc::timed_out); }
  catch (int e) { got = 3; MC_CHECK(e == 99); }
  catch (h::boom const & e) { got = 4; MC_CHECK(e.tag == 5); }
  MC_CHECK(got == k);
  mc::join_all();
  mc::outcome("%u%d", k, m);
}

MC_SCENARIO(P03, with_variant, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  unsigned k = mc::choose(5);
  h::mode m = h::pick_mode();
  auto s = make_custom<ex::set_value_t(), ex::set_value_t(int), ex::set_value_t(int, tv), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>(
    [k](auto& r) noexcept {
      switch (k)
      {
      case 0: ex::set_value(std::move(r)); break;
      case 1: ex::set_value(std::move(r), 7); break;
      case 2: ex::set_value(std::move(r), 8, tv(9)); break;
      case 3: ex::set_error(std::move(r), std::make_exception_ptr(3)); break;
      default: ex::set_stopped(std::move(r));
      }
    }, m);
  unsigned got = 100;
  try
  {
    auto r = ex::sync_wait_with_variant(s);
    if (!r) got = 4;
    else
      std::visit([&](auto const & t) {
        using T = std::decay_t<decltype(t)>;
        got = std::tuple_size_v<T>;
        if constexpr (std::tuple_size_v<T> == 1) MC_CHECK(std::get<0>(t) == 7);
        if constexpr (std::tuple_size_v<T> == 2) MC_CHECK(std::get<0>(t) == 8 && std::get<1>(t).get() == 9);
      }, *r);
  }
  catch (int e) { got = 3; MC_CHECK(e == 3); }
  MC_CHECK(got == k);
  mc::join_all();
  mc::outcome("%u%d", k, m);
}

// storing the value throws: reported as that exception
MC_SCENARIO(P03, throwing_value, {.preempt = -1})
{
  h::mode m = h::pick_mode();
  tv keep(4);
  auto s = make_custom<ex::set_value_t(tv const &)>([&](auto& r) noexcept { ex::set_value(std::move(r), std::as_const(keep)); }, m);
  h::throw_at = mc::choose(2);
  int expect = h::throw_at, got = 0;
  try { auto r = ex::sync_wait(s); MC_CHECK(r.has_value() && std::get<0>(*r).get() == 4); }
  catch (h::boom const &) { got = 1; }
  MC_CHECK(got == expect);
  mc::join_all();
  mc::outcome("%d%d", m, got);
}

// work delegated to the waiting thread runs there while it waits
MC_SCENARIO(P03, delegation, {.preempt = 3}, {.preempt = 5, .stale = 1})
{
  int ran[2] = {-1, -1};
  unsigned k = mc::choose(3);
  auto body = ex::read_env(ex::get_delegation_scheduler)
            | ex::let_value([&](auto sch) { return ex::schedule(sch) | ex::then([&] { ran[0] = mc::self(); return 5; }); });
  std::optional<std::tuple<int>> r;
  if (k == 0) r = ex::sync_wait(body);
  else if (k == 1) r = ex::sync_wait(ex::starts_on(h::thread_sched{1}, body));
  else
    r = ex::sync_wait(ex::starts_on(h::thread_sched{1}, ex::read_env(ex::get_delegation_scheduler)
            | ex::let_value([&](auto sch) { return ex::on(sch, ex::just() | ex::then([&] { ran[0] = mc::self(); return 5; })); })));
  MC_CHECK(r && std::get<0>(*r) == 5);
  MC_CHECK(ran[0] == 0);
  mc::join_all();
  mc::outcome("%u", k);
}

// nested sync_waits and several waits in a row on the same stack area
MC_SCENARIO(P03, back_to_back, {.preempt = 4}, {.preempt = -1})
{
  int sum = 0;
  for (int i = 0; i < 2; ++i)
  {
    auto r = ex::sync_wait(h::src{h::VAL, 10 + i, h::REMOTE});
    MC_CHECK(r);
    sum += std::get<0>(*r).get();
    volatile char fill[512];
    for (auto& c : fill) c = 0;  // reuse of the waiter's stack frame: a late access by the completer is a race
  }
  MC_CHECK(sum == 21);
  mc::join_all();
}
MC_SCENARIO(P03, nested, {.preempt = 4}, {.preempt = -1})
{
  auto r = ex::sync_wait(h::src{h::VAL, 1, h::REMOTE} | ex::then([](tv t) {
    auto q = ex::sync_wait(h::src{h::VAL, 2, h::REMOTE});
    return t.get() + std::get<0>(*q).get();
  }));
  MC_CHECK(r && std::get<0>(*r) == 3);
  mc::join_all();
}

// what the completing thread did before completing is visible after the wait
MC_SCENARIO(P03, visibility, {.preempt = -1, .stale = 1})
{
  int data = 0;
  auto r = ex::sync_wait(h::src{h::VAL, 1, h::REMOTE} | ex::then([&](tv) { data = 77; }));
  MC_CHECK(r && data == 77);
  mc::join_all();
}
