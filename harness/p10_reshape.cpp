// P10: result-reshaping adaptors are faithful
#include "common.hpp"
#include <exec/create.hpp>
#include <exec/finally.hpp>
#include <exec/into_tuple.hpp>
#include <exec/materialize.hpp>
#include <exec/sequence.hpp>
#include <exec/unless_stop_requested.hpp>
#include <exec/variant_sender.hpp>
using h::tv;

namespace
{
  // a sender of one of: (tv), (int, tv), (), error int, error exception_ptr, stopped
  auto many(unsigned k, h::mode m)
  {
    return h::make_custom<ex::set_value_t(tv), ex::set_value_t(int, tv), ex::set_value_t(), ex::set_error_t(int), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>(
      [k](auto& r) noexcept {
        auto kk = k;
        switch (kk)
        {
        case 0: ex::set_value(std::move(r), tv(5)); break;
        case 1: ex::set_value(std::move(r), 6, tv(7)); break;
        case 2: ex::set_value(std::move(r)); break;
        case 3: ex::set_error(std::move(r), 8); break;
        case 4: ex::set_error(std::move(r), std::make_exception_ptr(h::boom{9})); break;
        default: ex::set_stopped(std::move(r));
        }
      },
      m);
  }
  auto pair(unsigned k, h::mode m)
  {
    return h::make_custom<ex::set_value_t(int, tv), ex::set_error_t(int), ex::set_error_t(tv), ex::set_stopped_t()>(
      [k](auto& r) noexcept {
        auto kk = k;
        switch (kk)
        {
        case 0: ex::set_value(std::move(r), 6, tv(7)); break;
        case 1: ex::set_error(std::move(r), 8); break;
        case 2: ex::set_error(std::move(r), tv(9)); break;
        default: ex::set_stopped(std::move(r));
        }
      },
      m);
  }
  void is_src(h::rec const & r, h::chan c, int v)
  {
    MC_CHECK(r.n == 1);
    if (c == h::STOP) MC_CHECK(r.is(h::STOP)); else MC_CHECK(r.is(c, v));
  }
}  // namespace

MC_SCENARIO(P10, into_variant_all, {.preempt = -1})
{
  unsigned k = mc::choose(6);
  h::rec   r;
  h::go(ex::into_variant(many(k, h::pick_mode())), r);
  mc::join_all();
  switch (k)
  {
  case 0: MC_CHECK(r.is(h::VAL) && r.nv == 2 && r.v[0] == 101 && r.v[1] == 5); break;
  case 1: MC_CHECK(r.is(h::VAL) && r.nv == 3 && r.v[0] == 102 && r.v[1] == 6 && r.v[2] == 7); break;
  case 2: MC_CHECK(r.is(h::VAL) && r.nv == 1 && r.v[0] == 100); break;
  case 3: MC_CHECK(r.is(h::ERR, 8)); break;
  case 4: MC_CHECK(r.is(h::ERR, 1009)); break;
  default: MC_CHECK(r.is(h::STOP));
  }
}
MC_SCENARIO(P10, into_tuple_all, {.preempt = -1})
{
  unsigned k = mc::choose(4);
  h::rec   r;
  h::go(exec::into_tuple(pair(k, h::pick_mode())), r);
  mc::join_all();
  switch (k)
  {
  case 0: MC_CHECK(r.is(h::VAL, 6, 7)); break;
  case 1: MC_CHECK(r.is(h::ERR, 8)); break;
  case 2: MC_CHECK(r.is(h::ERR, 9)); break;
  default: MC_CHECK(r.is(h::STOP));
  }
}
MC_SCENARIO(P10, stopped_as_all, {.preempt = -1})
{
  auto   c = h::pick_chan();
  auto   m = h::pick_mode();
  h::rec r;
  switch (mc::choose(3))
  {
  case 0:
    h::go(ex::stopped_as_optional(h::src{c, 5, m}), r);
    mc::join_all();
    if (c == h::STOP) MC_CHECK(r.is(h::VAL, -7)); else MC_CHECK(r.is(c, 5));
    break;
  case 1:
    h::go(ex::stopped_as_error(h::src{c, 5, m}, 66), r);
    mc::join_all();
    if (c == h::STOP) MC_CHECK(r.is(h::ERR, 66)); else MC_CHECK(r.is(c, 5));
    break;
  default:
    h::go(ex::stopped_as_error(h::src{c, 5, m}, tv(67)), r);
    mc::join_all();
    if (c == h::STOP) MC_CHECK(r.is(h::ERR, 67)); else MC_CHECK(r.is(c, 5));
  }
}
MC_SCENARIO(P10, materialize_all, {.preempt = -1})
{
  unsigned k = mc::choose(4);
  auto     m = h::pick_mode();
  h::rec   r;
  if (mc::choose(2))
  {
    long tag = 0;
    h::go(exec::materialize(pair(k, m)) | ex::let_value([&]<class T, class... A>(T, A&&... a) {
            tag = std::same_as<T, ex::set_value_t> ? 1 : std::same_as<T, ex::set_error_t> ? 2 : 3;
            return ex::just((0L + ... + h::conv(a)), long(sizeof...(A)));
          }), r);
    mc::join_all();
    long sum[] = {13, 8, 9, 0}, cnt[] = {2, 1, 1, 0}, tags[] = {1, 2, 2, 3};
    MC_CHECK(r.is(h::VAL, sum[k], cnt[k]) && tag == tags[k]);
  }
  else
  {
    h::go(exec::dematerialize(exec::materialize(pair(k, m))), r);
    mc::join_all();
    switch (k)
    {
    case 0: MC_CHECK(r.is(h::VAL, 6, 7)); break;
    case 1: MC_CHECK(r.is(h::ERR, 8)); break;
    case 2: MC_CHECK(r.is(h::ERR, 9)); break;
    default: MC_CHECK(r.is(h::STOP));
    }
  }
}
// dematerialize forwards the errors and stopped signals of its own child as they are
MC_SCENARIO(P10, dematerialize_child, {.preempt = -1})
{
  auto   c = h::pick_chan();
  auto   m = h::pick_mode();
  h::rec r;
  h::go(exec::dematerialize(h::src{c, 5, m} | ex::then([](tv t) { return ex::set_error; }) | ex::let_value([](auto tag) { return ex::just(tag, 3); })), r);
  mc::join_all();
  if (c == h::VAL) MC_CHECK(r.is(h::ERR, 3)); else is_src(r, c, 5);
}
// finally: the cleanup runs exactly once, after the work, and its failure replaces the result
MC_SCENARIO(P10, finally_all, {.preempt = -1})
{
  auto   c = h::pick_chan(), f = h::pick_chan();
  auto   m = h::pick_mode(), fm = h::pick_mode();
  int    s1 = 0, s2 = 0, d[2] = {}, early = 0;
  h::rec r;
  r.need = d; r.nneed = 2;
  h::go(exec::finally(h::src{c, 5, m, &s1, 3, &d[0]},
                      ex::just() | ex::let_value([&] { if (!d[0]) ++early; return h::src{f, 8, fm, &s2, 4, &d[1]} | ex::then([](tv) {}); })),
        r);
  mc::join_all();
  MC_CHECK(s1 == 1 && s2 == 1 && !early);
  if (f == h::VAL) is_src(r, c, 5);
  else is_src(r, f, 8);
}
// a cleanup that never succeeds
MC_SCENARIO(P10, finally_no_value, {.preempt = -1})
{
  auto   c = h::pick_chan();
  auto   m = h::pick_mode();
  int    s1 = 0;
  h::rec r;
  if (mc::choose(2))
  {
    h::go(exec::finally(h::src{c, 5, m, &s1}, ex::just_stopped()), r);
    mc::join_all();
    MC_CHECK(r.is(h::STOP) && s1 == 1);
  }
  else
  {
    h::go(exec::finally(h::src{c, 5, m, &s1}, ex::just_error(7)), r);
    mc::join_all();
    MC_CHECK(r.is(h::ERR, 7) && s1 == 1);
  }
}
MC_SCENARIO(P10, finally_values, {.preempt = -1})
{
  // the work completes with references to locals: the result is a copy taken at that time
  auto s = h::make_custom<ex::set_value_t(tv&, int const &)>([](auto& r) noexcept {
      tv a(1); int b = 2;
      ex::set_value(std::move(r), a, b);
      a = tv(9); b = 9;
    }, h::pick_mode());
  h::rec r;
  h::go(exec::finally(s, h::src{h::VAL, 1, h::pick_mode()} | ex::then([](tv) {})), r);
  mc::join_all();
  MC_CHECK(r.is(h::VAL, 1, 2));
}
// the result cannot be stored: the cleanup still runs, once, and then its exception is delivered
MC_SCENARIO(P10, finally_unstorable, {.preempt = -1})
{
  auto   f = h::pick_chan();
  auto   m = h::pick_mode(), fm = h::pick_mode();
  int    fails = mc::choose(3, "fails"), s2 = 0;
  auto   s = h::make_custom<ex::set_value_t(tv const &, tv const &), ex::set_value_t(int)>([fails](auto& r) noexcept {
      tv a(1), b(2);
      h::throw_at = fails;
      ex::set_value(std::move(r), static_cast<tv const &>(a), static_cast<tv const &>(b));
    }, m);
  h::rec r;
  h::go(exec::finally(std::move(s), h::src{f, 8, fm, &s2, 4} | ex::then([](tv) {})), r);
  mc::join_all();
  h::throw_at = 0;
  MC_CHECK(s2 == 1);
  if (f != h::VAL) is_src(r, f, 8);
  else if (fails == 0) MC_CHECK(r.is(h::VAL, 1, 2));
  else MC_CHECK(r.is(h::ERR, 1077));
}
// finally nested in finally: inner cleanup before outer cleanup
MC_SCENARIO(P10, finally_nested, {.preempt = -1})
{
  auto   c = h::pick_chan();
  int    order[2] = {}, k = 0;
  h::rec r;
  auto   mark = [&](int i, h::mode m) { return h::src{h::VAL, 1, m} | ex::then([&, i](tv) { if (k < 2) order[k] = i; ++k; }); };
  h::go(exec::finally(exec::finally(h::src{c, 5, h::pick_mode()}, mark(1, h::pick_mode())), mark(2, h::pick_mode())), r);
  mc::join_all();
  MC_CHECK(k == 2 && order[0] == 1 && order[1] == 2);
  is_src(r, c, 5);
}
// sequence: stages run one after the other, up to the first that does not succeed
MC_SCENARIO(P10, sequence_all, {.preempt = -1})
{
  unsigned n = mc::choose(4);
  h::chan  c[3];
  h::mode  m[3];
  int      st[3] = {}, d[3] = {}, early = 0;
  h::rec   r;
  for (unsigned i = 0; i < n; ++i) { c[i] = h::pick_chan(); m[i] = h::pick_mode(); }
  auto stage = [&](int i) {
    return ex::just() | ex::let_value([&, i] {
             if (i > 0 && !d[i - 1]) ++early;
             return h::src{c[i], 5 + i, m[i], &st[i], 3, &d[i]};
           });
  };
  auto v = ex::then([](tv) {});
  switch (n)
  {
  case 0: h::go(exec::sequence(), r); break;
  case 1: h::go(exec::sequence(stage(0)), r); break;
  case 2: h::go(exec::sequence(stage(0) | v, stage(1)), r); break;
  default: h::go(exec::sequence(stage(0) | v, stage(1) | v, stage(2)), r);
  }
  mc::join_all();
  bool alive = true;
  unsigned last = 0;
  for (unsigned i = 0; i < n; ++i)
  {
    MC_CHECK(st[i] == (alive ? 1 : 0));
    if (alive) last = i;
    alive = alive && c[i] == h::VAL;
  }
  MC_CHECK(!early);
  if (n == 0) MC_CHECK(r.is(h::VAL) && r.nv == 0);
  else is_src(r, c[last], 5 + last);
}
MC_SCENARIO(P10, unless_stop, {.preempt = -1})
{
  auto   c = h::pick_chan();
  auto   m = h::pick_mode();
  int    when = mc::choose(3), st = 0;
  h::rec r;
  ex::inplace_stop_source src;
  if (when == 1) src.request_stop();
  std::thread t;
  if (when == 2) t = std::thread([&] { src.request_stop(); });
  h::go(exec::unless_stop_requested(h::src{c, 5, m, &st}), r, h::stop_env{src.get_token()});
  if (t.joinable()) t.join();
  mc::join_all();
  MC_CHECK(r.n == 1);
  if (when == 0) MC_CHECK(st == 1);
  if (when == 1) MC_CHECK(st == 0);
  if (st) is_src(r, c, 5); else MC_CHECK(r.is(h::STOP));
  mc::outcome("%d%d", when, st);
}
MC_SCENARIO(P10, unless_unstoppable, {.preempt = -1})
{
  auto   c = h::pick_chan();
  int    st = 0;
  h::rec r;
  h::go(exec::unless_stop_requested(h::src{c, 5, h::pick_mode(), &st}), r);
  mc::join_all();
  MC_CHECK(st == 1);
  is_src(r, c, 5);
}
// variant_sender behaves as the alternative it holds, through assignment, emplacement, copies, moves and swaps
MC_SCENARIO(P10, variant_sender_all, {.preempt = -1})
{
  using J = decltype(ex::just(tv(1)));
  using E = decltype(ex::just_error(7));
  using V = exec::variant_sender<h::src, J, E>;
  int    model = 0;  // 0 src, 1 just, 2 error
  int    val = 1;
  h::chan c = h::pick_chan();
  V v(h::src{c, 1, h::pick_mode()});
  for (int k = 0; k < 3; ++k)
  {
    switch (mc::choose(5))
    {
    case 0: v = ex::just(tv(10 + k)); model = 1; val = 10 + k; break;
    case 1: v.emplace<E>(ex::just_error(20 + k)); model = 2; val = 20 + k; break;
    case 2: { V w(v); v = E(ex::just_error(0)); v.swap(w); break; }
    case 3: { V w(ex::just(tv(30 + k))); v.swap(w); model = 1; val = 30 + k; break; }
    default: { V w(std::move(v)); v = std::move(w); }
    }
    MC_CHECK(int(v.index()) == model);
  }
  h::rec r;
  if (mc::choose(2)) { h::go(v, r); }
  else { h::go(std::move(v), r); }
  mc::join_all();
  if (model == 0) is_src(r, c, 1);
  else if (model == 1) MC_CHECK(r.is(h::VAL, val));
  else MC_CHECK(r.is(h::ERR, val));
}
// create: the function gets the receiver and its arguments, and the operation completes as it says
MC_SCENARIO(P10, create_all, {.preempt = -1})
{
  auto   c = h::pick_chan();
  auto   m = h::pick_mode();
  int    calls = 0;
  h::rec r;
  h::go(exec::create<ex::set_value_t(tv, int), ex::set_error_t(int), ex::set_stopped_t()>(
          [&calls, c, m]<class X>(X& ctx) noexcept {
            ++calls;
            auto fin = [&ctx, c] {
              switch (c)
              {
              case h::VAL: { tv t = std::move(std::get<0>(ctx.args)); int i = std::get<1>(ctx.args); ex::set_value(std::move(ctx.receiver), std::move(t), i); break; }
              case h::ERR: ex::set_error(std::move(ctx.receiver), std::get<1>(ctx.args) + 0); break;
              default: ex::set_stopped(std::move(ctx.receiver));
              }
            };
            if (m == h::INLINE) fin();
            else std::thread(fin).detach();
          },
          tv(4), 6),
        r);
  mc::join_all();
  MC_CHECK(calls == 1);
  if (c == h::VAL) MC_CHECK(r.is(h::VAL, 4, 6));
  else if (c == h::ERR) MC_CHECK(r.is(h::ERR, 6));
  else MC_CHECK(r.is(h::STOP));
}

// ----------------------------------------------------------------------------- compositions
// Each adaptor is normalised to "tv | int error | exception | stopped" and has a model.
namespace
{
  struct out { h::chan c; long v; };
  struct A0
  {
    static auto ap(auto s) { return ex::into_variant(std::move(s)) | ex::then([](auto v) { return std::get<0>(std::get<0>(std::move(v))); }); }
    static out  mo(out o) { return o; }
  };
  struct A1
  {
    static auto ap(auto s) { return exec::into_tuple(std::move(s)) | ex::then([](auto v) { return std::get<0>(std::move(v)); }); }
    static out  mo(out o) { return o; }
  };
  struct A2
  {
    static auto ap(auto s) { return ex::stopped_as_optional(std::move(s)) | ex::then([](auto v) { return v ? tv(v->get() + 1) : tv(500); }); }
    static out  mo(out o) { return o.c == h::STOP ? out{h::VAL, 500} : o.c == h::VAL ? out{h::VAL, o.v + 1} : o; }
  };
  struct A3
  {
    static auto ap(auto s) { return ex::stopped_as_error(std::move(s), 600); }
    static out  mo(out o) { return o.c == h::STOP ? out{h::ERR, 600} : o; }
  };
  struct A4
  {
    static auto ap(auto s) { return exec::dematerialize(exec::materialize(std::move(s))); }
    static out  mo(out o) { return o; }
  };
  inline int fins = 0;
  struct A5
  {
    static auto ap(auto s) { return exec::finally(std::move(s), ex::just() | ex::then([] { ++fins; })); }
    static out  mo(out o) { return o; }
  };
  struct A6
  {
    static auto ap(auto s) { return exec::sequence(ex::just() | ex::then([] { ++fins; }), std::move(s)); }
    static out  mo(out o) { return o; }
  };
  struct A8
  {
    static auto ap(auto s) { return exec::unless_stop_requested(std::move(s)); }
    static out  mo(out o) { return o; }
  };
  // swaps the value and the stopped channel
  struct A9
  {
    static auto ap(auto s) { return ex::let_value(ex::upon_stopped(std::move(s), [] { return tv(700); }), [](tv& t) { using V = exec::variant_sender<decltype(ex::just(tv(0))), decltype(ex::just_stopped())>; return t.get() == 700 ? V(ex::just(tv(701))) : V(ex::just_stopped()); }); }
    static out  mo(out o) { return o.c == h::STOP ? out{h::VAL, 701} : o.c == h::VAL ? out{h::STOP, 0} : o; }
  };
  template <class A, class B>
  void compose(h::src s)
  {
    h::rec r;
    out    o = A::mo(B::mo(out{s.ch, s.val}));
    h::go(A::ap(B::ap(s)), r);
    mc::join_all();
    MC_CHECK(r.n == 1);
    if (o.c == h::STOP) MC_CHECK(r.is(h::STOP)); else MC_CHECK(r.is(o.c, o.v));
  }
  template <class A>
  void with(h::src s)
  {
    switch (mc::choose(9))
    {
    case 0: compose<A, A0>(s); break;
    case 1: compose<A, A1>(s); break;
    case 2: compose<A, A2>(s); break;
    case 3: compose<A, A3>(s); break;
    case 4: compose<A, A4>(s); break;
    case 5: compose<A, A5>(s); break;
    case 6: compose<A, A6>(s); break;
    case 7: compose<A, A8>(s); break;
    default: compose<A, A9>(s);
    }
  }
}  // namespace
MC_SCENARIO(P10, compositions, {.preempt = -1})
{
  h::src s{h::pick_chan(), 5, h::pick_mode()};
  switch (mc::choose(9))
  {
  case 0: with<A0>(s); break;
  case 1: with<A1>(s); break;
  case 2: with<A2>(s); break;
  case 3: with<A3>(s); break;
  case 4: with<A4>(s); break;
  case 5: with<A5>(s); break;
  case 6: with<A6>(s); break;
  case 7: with<A8>(s); break;
  default: with<A9>(s);
  }
}
