// P08: then, upon_*, let_* act on their own channel and forward the others.
// Every pipeline source | A | B, with A and B from the six adaptors, every channel and completion mode of the source,
// and every behaviour of the two functions, against a reference interpreter.
#include "common.hpp"
#include <exec/just_from.hpp>
using h::tv;

namespace
{
  struct beh { bool throws; h::chan ch; h::mode m; };
  struct out { h::chan ch; long v; };
  int calls[4];

  // one adaptor: how to build it, and what it does to an outcome
  template <int K> struct ad;
  template <int L> struct tagl {};

  beh pick(int k)
  {
    beh b{bool(mc::choose(2, "throws")), h::VAL, h::INLINE};
    if (!b.throws && k >= 3) { b.ch = h::pick_chan(); b.m = h::pick_mode(); }
    return b;
  }
  // reference: k = 0..5 (then, upon_error, upon_stopped, let_value, let_error, let_stopped), at level l
  out model(int k, int l, beh b, out in, int* expect_calls)
  {
    h::chan own = k % 3 == 0 ? h::VAL : k % 3 == 1 ? h::ERR : h::STOP;
    if (in.ch != own) return in;
    ++expect_calls[l];
    long x = in.ch == h::STOP ? 0 : in.v;
    if (b.throws) return {h::ERR, 1000 + 70 + l};
    if (k < 3) return {h::VAL, x + 10 * (k + 1)};
    if (b.ch == h::STOP) return {h::STOP, 0};
    return {b.ch, x + 100 * k};
  }
  template <class S> auto hold(S s) { return s; }

  template <int K, int L>
  auto adapt(beh b)
  {
    if constexpr (K == 0)
      return ex::then([b](tv t) { ++calls[L]; if (b.throws) throw h::boom{70 + L}; return tv(t.get() + 10); });
    else if constexpr (K == 1)
      return ex::upon_error([b](auto e) { ++calls[L]; if (b.throws) throw h::boom{70 + L}; return tv(int(h::conv(e)) + 20); });
    else if constexpr (K == 2)
      return ex::upon_stopped([b] { ++calls[L]; if (b.throws) throw h::boom{70 + L}; return tv(30); });
    else if constexpr (K == 3)
      return ex::let_value([b](tv& t) {
        ++calls[L];
        if (b.throws) throw h::boom{70 + L};
        int v = t.get();
        // the argument lives until the second operation is over
        return ex::then(h::src{b.ch, v + 300, b.m}, [&t, v](tv x) { MC_CHECK(t.get() == v); return x; });
      });
    else if constexpr (K == 4)
      return ex::let_error([b](auto& e) {
        ++calls[L];
        if (b.throws) throw h::boom{70 + L};
        int v = int(h::conv(e));
        return ex::then(h::src{b.ch, v + 400, b.m}, [&e, v](tv x) { MC_CHECK(h::conv(e) == v); return x; });
      });
    else
      return ex::let_stopped([b] {
        ++calls[L];
        if (b.throws) throw h::boom{70 + L};
        return h::src{b.ch, 500, b.m};
      });
  }
  void compare(h::rec const & r, out o, int const * ec)
  {
    MC_CHECK(r.n == 1);
    if (r.ch != o.ch) mc::fail("completed on channel %d (%s), expected %d", r.ch, r.str().c_str(), o.ch);
    if (o.ch != h::STOP && (r.nv != 1 || r.v[0] != o.v)) mc::fail("completed with %s, expected %ld", r.str().c_str(), o.v);
    for (int i = 0; i < 4; ++i)
      if (calls[i] != ec[i]) mc::fail("function %d called %d time(s), expected %d", i, calls[i], ec[i]);
  }
  template <int A, int B>
  void two()
  {
    h::chan c = h::pick_chan();
    h::mode m = h::pick_mode();
    beh a = pick(A), b = pick(B);
    int ec[4] = {};
    out o = model(B, 1, b, model(A, 0, a, {c, 5}, ec), ec);
    h::rec r;
    h::go(h::src{c, 5, m} | adapt<A, 0>(a) | adapt<B, 1>(b), r);
    mc::join_all();
    compare(r, o, ec);
    mc::outcome("%s", r.str().c_str());
  }
  template <int A>
  void one_then_any()
  {
    switch (mc::choose(6, "second adaptor"))
    {
    case 0: two<A, 0>(); break;
    case 1: two<A, 1>(); break;
    case 2: two<A, 2>(); break;
    case 3: two<A, 3>(); break;
    case 4: two<A, 4>(); break;
    default: two<A, 5>(); break;
    }
  }
}  // namespace

MC_SCENARIO(P08, then_any, {.preempt = -1}) { one_then_any<0>(); }
MC_SCENARIO(P08, upon_error_any, {.preempt = -1}) { one_then_any<1>(); }
MC_SCENARIO(P08, upon_stopped_any, {.preempt = -1}) { one_then_any<2>(); }
MC_SCENARIO(P08, let_value_any, {.preempt = -1}) { one_then_any<3>(); }
MC_SCENARIO(P08, let_error_any, {.preempt = -1}) { one_then_any<4>(); }
MC_SCENARIO(P08, let_stopped_any, {.preempt = -1}) { one_then_any<5>(); }

// sources and arities
MC_SCENARIO(P08, just_family, {.preempt = 0})
{
  h::rec r[8];
  h::go(ex::just(), r[0]);
  h::go(ex::just(1, tv(2), 3l), r[1]);
  h::go(ex::just_error(tv(4)), r[2]);
  h::go(ex::just_stopped(), r[3]);
  MC_CHECK(r[0].is(h::VAL) && r[0].nv == 0);
  MC_CHECK(r[1].is(h::VAL) && r[1].nv == 3 && r[1].v[0] == 1 && r[1].v[1] == 2 && r[1].v[2] == 3);
  MC_CHECK(r[2].is(h::ERR, 4) && r[3].is(h::STOP));
  // a sender can be connected several times as an lvalue; every operation gets its own values
  auto s = ex::just(tv(7)) | ex::then([](tv t) { return tv(t.get() + 1); }) | ex::let_value([](tv& t) { return ex::just(tv(t.get() + 1)); });
  h::go(s, r[4]); h::go(s, r[5]); h::go(std::move(s), r[6]);
  for (int i = 4; i < 7; ++i) MC_CHECK(r[i].is(h::VAL, 9));
}
// functions returning void, references; several arguments; move-only values; functions taking by value / reference
MC_SCENARIO(P08, function_shapes, {.preempt = 0})
{
  h::rec r[10];
  int x = 5, seen = 0;
  h::go(ex::just(1, tv(2)) | ex::then([&](int a, tv b) { seen = a + b.get(); }), r[0]);
  MC_CHECK(r[0].is(h::VAL) && r[0].nv == 0 && seen == 3);
  h::go(ex::just() | ex::then([&]() -> int& { return x; }) | ex::then([&](auto&& q) { q = 6; return 1; }), r[1]);
  MC_CHECK(r[1].is(h::VAL, 1) && x == 6);
  h::go(ex::just(std::make_unique<int>(4)) | ex::then([](std::unique_ptr<int> p) { return *p; }), r[2]);
  MC_CHECK(r[2].is(h::VAL, 4));
  h::go(ex::just(tv(1), tv(2)) | ex::let_value([](tv& a, tv& b) { return ex::just(tv(a.get() * 10 + b.get())); }), r[3]);
  MC_CHECK(r[3].is(h::VAL, 12));
  h::go(ex::just_error(tv(3)) | ex::upon_error([](tv t) { return t; }), r[4]);
  MC_CHECK(r[4].is(h::VAL, 3));
  h::go(ex::just_stopped() | ex::upon_stopped([&] { seen = 8; }), r[5]);
  MC_CHECK(r[5].is(h::VAL) && seen == 8);
  h::go(ex::just(tv(1)) | ex::let_value([](tv& a) { return ex::just(std::move(a)); }), r[6]);
  MC_CHECK(r[6].is(h::VAL, 1));
  h::go(ex::just_error(std::make_exception_ptr(3)) | ex::let_error([](std::exception_ptr& e) { return ex::just_error(h::decode(e) == 3 ? 1 : 2); }), r[7]);
  MC_CHECK(r[7].is(h::ERR, 1));
}
// several value completions: each is mapped on its own
MC_SCENARIO(P08, several_signatures, {.preempt = -1})
{
  unsigned k = mc::choose(4);
  h::mode m = h::pick_mode();
  auto s = h::make_custom<ex::set_value_t(int), ex::set_value_t(tv, int), ex::set_error_t(int), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>(
    [k](auto& r) noexcept {
      if (k == 0) ex::set_value(std::move(r), 1);
      else if (k == 1) ex::set_value(std::move(r), tv(2), 3);
      else if (k == 2) ex::set_error(std::move(r), 4);
      else ex::set_error(std::move(r), std::make_exception_ptr(5));
    }, m);
  struct f
  {
    int operator()(int a) const { return a + 10; }
    int operator()(tv a, int b) const { return a.get() * 10 + b; }
  };
  struct g
  {
    auto operator()(int& a) const { return ex::just(a + 10); }
    auto operator()(tv& a, int& b) const { return ex::just(a.get() * 10 + b); }
  };
  h::rec r[2];
  h::go(s | ex::then(f{}), r[0]);
  h::go(s | ex::let_value(g{}), r[1]);
  mc::join_all();
  for (auto& x : r)
  {
    if (k == 0) MC_CHECK(x.is(h::VAL, 11));
    if (k == 1) MC_CHECK(x.is(h::VAL, 23));
    if (k >= 2) MC_CHECK(x.is(h::ERR, k + 2));
  }
  mc::outcome("%u%d", k, m);
}
MC_SCENARIO(P08, just_from, {.preempt = 0})
{
  unsigned k = mc::choose(5);
  h::rec r;
  if (k == 0) { h::go(exec::just_from([](auto sink) { return sink(1, tv(2)); }), r); MC_CHECK(r.is(h::VAL, 1, 2)); }
  if (k == 1) { h::go(exec::just_error_from([](auto sink) { return sink(tv(2)); }), r); MC_CHECK(r.is(h::ERR, 2)); }
  if (k == 2) { h::go(exec::just_stopped_from([](auto sink) { return sink(); }), r); MC_CHECK(r.is(h::STOP)); }
  if (k == 3)
  {
    auto s = exec::just_from([q = std::make_shared<int>(6)](auto sink) { return sink(*q); });
    h::go(s, r);
    h::rec r2; h::go(std::move(s), r2);
    MC_CHECK(r.is(h::VAL, 6) && r2.is(h::VAL, 6));
  }
  if (k == 4)
  {
    bool th = mc::choose(2);
    h::go(exec::just_from([th](auto sink) { if (th) throw h::boom{4}; return sink(1); }), r);
    if (th) MC_CHECK(r.is(h::ERR, 1004)); else MC_CHECK(r.is(h::VAL, 1));
  }
}
// a let chain across threads: every intermediate operation is destroyed only after it is over
MC_SCENARIO(P08, let_chain_remote, {.preempt = -1, .stale = 1})
{
  h::rec r;
  h::go(h::src{h::VAL, 1, h::REMOTE}
    | ex::let_value([](tv& a) { return h::src{h::VAL, a.get() + 1, h::REMOTE} | ex::let_value([&a](tv& b) { return h::src{h::ERR, a.get() * 10 + b.get(), h::REMOTE}; }); })
    | ex::let_error([](auto& e) { return h::src{h::STOP, int(h::conv(e)), h::REMOTE} | ex::let_stopped([&e] { return ex::just(tv(int(h::conv(e)))); }); }), r);
  mc::join_all();
  MC_CHECK(r.is(h::VAL, 12));
}
