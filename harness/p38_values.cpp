// P38: a sender is a lazy value: describing, copying, moving, connecting or dropping work runs nothing and changes nothing;
// every operation made from (a copy of) it does the same work afresh.
// PARTS: 8
#define H_FAULTS 1
#include "catalogue.hpp"
#include <exec/any_sender_of.hpp>
#include <exec/create.hpp>
#include <exec/just_from.hpp>
#include <exec/sequence/ignore_all_values.hpp>
#include <exec/sequence/iterate.hpp>
#include <exec/sequence/merge.hpp>
#include <exec/sequence/merge_each.hpp>
#include <exec/sequence/transform_each.hpp>
#include <exec/task.hpp>
#include <exec/trampoline_scheduler.hpp>
#include <stdexec/coroutine.hpp>
using h::tv;

namespace
{
  inline int runs = 0;   // user functions invoked, child operations started
  inline int conn = 0;   // child operations alive
  inline void effect() { ++runs; }

  struct env_
  {
    ex::inplace_stop_token tok;
    ex::inplace_stop_token query(ex::get_stop_token_t) const noexcept { return tok; }
    ex::inline_scheduler query(ex::get_scheduler_t) const noexcept { return {}; }
    ex::inline_scheduler query(ex::get_start_scheduler_t) const noexcept { return {}; }
  };
  struct seen { h::gate g; int n = 0; std::string s; };
  template <class T> void put(std::string& s, T const & x)
  {
    using D = std::decay_t<T>;
    if constexpr (std::is_same_v<D, tv>) s += " tv" + std::to_string(x.get());
    else if constexpr (std::is_integral_v<D>) s += " " + std::to_string(x);
    else if constexpr (requires { x.index(); }) { s += " variant" + std::to_string(x.index()); std::visit([&](auto const & y) { put(s, y); }, x); }
    else if constexpr (requires { x.has_value(); }) { s += x ? " some" : " none"; if (x) put(s, *x); }
    else if constexpr (requires { std::tuple_size<D>::value; }) { s += " ("; std::apply([&](auto const &... y) { (put(s, y), ...); }, x); s += ")"; }
    else s += " ?";
  }
  template <class... As> void look(As const &... as)  // moved-from values are not for anyone to see
  {
    std::string s;
    (put(s, as), ...);
  }
  struct rcvr
  {
    using receiver_concept = ex::receiver_t;
    seen* m;
    env_  e;
    template <class... As> void hit(char const * c, As const &... as) noexcept
    {
      if (++m->n > 1) mc::fail("second completion");
      m->s = c;
      (put(m->s, as), ...);
      m->g.done();
    }
    template <class... As> void set_value(As&&... as) noexcept { hit("value", as...); }
    template <class E> void set_error(E&& e) noexcept { hit("error", e); }
    void set_stopped() noexcept { hit("stopped"); }
    env_ get_env() const noexcept { return e; }
  };

  // completes inline with its own value: moved out, by reference, as an error, or not at all
  using V = ex::set_value_t; using E = ex::set_error_t; using S = ex::set_stopped_t;
  template <class Sig> struct src
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures<Sig>;
    tv x{5};
    template <class R> struct op
    {
      R r; tv x;
      op(R rr, tv xx) : r(std::move(rr)), x(std::move(xx)) { ++conn; }
      op(op&&) = delete;
      ~op() { --conn; }
      void fire(S (*)()) { S()(std::move(r)); }
      template <class Tag, class A> void fire(Tag (*)(A)) { Tag()(std::move(r), static_cast<A&&>(x)); }
      template <class Tag, class A> void fire(Tag (*)(A, int)) { Tag()(std::move(r), static_cast<A&&>(x), 6); }
      void start() & noexcept { effect(); fire(static_cast<Sig*>(nullptr)); }
    };
    template <class R> auto connect(R r) && -> op<R> { return op<R>(std::move(r), std::move(x)); }
    template <class R> auto connect(R r) const & -> op<R> { return op<R>(std::move(r), x); }
  };

  // a function object with state: invoked as often as it likes, always on the operation's own copy
  template <int What> struct fun
  {
    tv x{3};
    fun() = default;
    tv take() { effect(); return std::move(x); }
    auto operator()(auto&&... as)
    {
      look(as...);
      if constexpr (What == 0) return take();
      else if constexpr (What == 1) { (void) take(); }
      else if constexpr (What == 2) return ex::just(take(), as...);
      else if constexpr (What == 3) return ex::just_error(take());
      else if constexpr (What == 4) { (void) take(); return true; }
    }
  };
  struct bfn { int x = 3; void operator()(int, auto&&... as) { look(as...); effect(); if (--x < 0) mc::fail("a function object was invoked on behalf of another operation"); } };
  struct cfn { int x = 2; void operator()(int, int, auto&&... as) { look(as...); effect(); if (--x < 0) mc::fail("a function object was invoked on behalf of another operation"); } };

  struct pfn { void operator()(auto&&... as) const { look(as...); effect(); } };

  struct st
  {
    ex::inplace_stop_source src;
    ex::simple_counting_scope scope;
    exec::async_scope ascope;
    ~st()
    {
      h::throw_at = 0;
      h::rec r, r2;
      scope.close();
      h::go(scope.join(), r, env_{});
      h::go(ascope.on_empty(), r2, env_{});
      mc::join_all();
      if (r.ch != h::VAL || r2.ch != h::VAL) mc::fail("scopes were not released");
    }
  };

  constexpr int base = __COUNTER__ + 1;
  template <int> struct ad;
#define AD(NAME, MASK, ...)                                                                                  \
  template <> struct ad<__COUNTER__ - base>                                                                  \
  {                                                                                                          \
    static constexpr char const * name = #NAME;                                                              \
    static constexpr unsigned mask = (MASK);                                                                 \
    template <class X> static auto wrap(X s, st& t) { (void) t; return __VA_ARGS__; }                        \
  };
  // leaves: 0 V(tv)  1 V(tv&)  2 V(tv, int)  3 E(tv)  4 S()
  constexpr unsigned ANY = 0x1f, VAL1 = 7, SINGLE = 3;
  AD(alone, ANY, s)
  AD(then, ANY, std::move(s) | ex::then(fun<0>{}))
  AD(then_void, ANY, std::move(s) | ex::then(fun<1>{}))
  AD(upon_error, ANY, std::move(s) | ex::upon_error(fun<0>{}))
  AD(upon_stopped, ANY, std::move(s) | ex::upon_stopped(fun<0>{}))
  AD(let_value, ANY, std::move(s) | ex::let_value(fun<2>{}))
  AD(let_value_fails, ANY, std::move(s) | ex::let_value(fun<3>{}))
  AD(let_error, ANY, std::move(s) | ex::let_error(fun<2>{}))
  AD(let_stopped, ANY, std::move(s) | ex::let_stopped(fun<2>{}))
  AD(let_value_twice, ANY, std::move(s) | ex::let_value(fun<2>{}) | ex::let_value(fun<2>{}))
  AD(continues_on_inline, ANY, ex::continues_on(std::move(s), ex::inline_scheduler{}))
  AD(continues_on_thread, ANY, ex::continues_on(std::move(s), h::thread_sched{1, h::VAL}))
  AD(starts_on_thread, ANY, ex::starts_on(h::thread_sched{1, h::VAL}, std::move(s)))
  AD(starts_on_trampoline, ANY, ex::starts_on(exec::trampoline_scheduler{}, std::move(s)))
  AD(on, ANY, ex::on(h::thread_sched{1, h::VAL}, std::move(s)))
  AD(when_all, ANY, ex::when_all(std::move(s), ex::just(tv(1))))
  AD(when_all_2, ANY, ex::when_all(ex::just(tv(1)) | ex::then(fun<0>{}), std::move(s)))
  AD(when_all_with_variant, ANY, ex::when_all_with_variant(std::move(s), ex::just(1)))
  AD(when_any, ANY, exec::when_any(std::move(s), ex::just(tv(1))))
  AD(into_variant, ANY, ex::into_variant(std::move(s)))
  AD(into_tuple, VAL1, exec::into_tuple(std::move(s)))
  AD(stopped_as_optional, 1, ex::stopped_as_optional(std::move(s)))
  AD(stopped_as_error, ANY, ex::stopped_as_error(std::move(s), tv(3)))
  AD(dematerialize, ANY, exec::dematerialize(exec::materialize(std::move(s))))
  AD(finally, ANY, exec::finally(std::move(s), ex::just() | ex::then(fun<1>{})))
  AD(finally_2nd, ANY, exec::finally(ex::just(tv(1)), std::move(s) | ex::then(fun<1>{})))
  AD(sequence, ANY, exec::sequence(ex::just() | ex::then(fun<1>{}), std::move(s)))
  AD(sequence_1st, ANY, exec::sequence(std::move(s) | ex::then(fun<1>{}), ex::just(tv(2))))
  AD(repeat_n, ANY, exec::repeat_n(std::move(s) | ex::then([](auto&&... as) noexcept { look(as...); effect(); }), 2))
  AD(repeat_until, ANY, exec::repeat_until(std::move(s) | ex::then([n = 0](auto&&... as) mutable { look(as...); effect(); return ++n == 1; })))
  AD(stop_when, ANY, ex::__stop_when(std::move(s), t.src.get_token()))
  AD(unstoppable, ANY, ex::unstoppable(std::move(s)))
  AD(unless_stop_requested, ANY, exec::unless_stop_requested(std::move(s)))
  AD(variant_sender, ANY, exec::variant_sender<X, decltype(ex::just_error(1.5))>(std::move(s)))
  AD(bulk, ANY, std::move(s) | ex::bulk(ex::seq, 3, bfn{}))
  AD(bulk_unchunked, ANY, std::move(s) | ex::bulk_unchunked(ex::seq, 3, bfn{}))
  AD(bulk_chunked, ANY, std::move(s) | ex::bulk_chunked(ex::seq, 3, cfn{}))
  AD(affine, ANY, ex::affine(std::move(s)))
  AD(associate, ANY, ex::associate(std::move(s), t.scope.get_token()))
  AD(nest, ANY, t.ascope.nest(std::move(s)))
  AD(write_env, ANY, ex::write_env(std::move(s), ex::prop{ex::get_stop_token, ex::never_stop_token{}}))
  AD(split, ANY, exec::split(std::move(s)))
  AD(split_then, ANY, exec::split(std::move(s)) | ex::then(fun<0>{}))
  constexpr int count = __COUNTER__ - base;

  template <class S> inline constexpr bool shares = false;  // split: one run serves every copy
  template <class Sn> bool once(Sn&& s, env_ e, std::string& out)
  {
    seen m;
    auto op = ex::connect(std::forward<Sn>(s), rcvr{&m, e});
    ex::start(op);
    m.g.wait();
    mc::join_all();
    out = m.s;
    return m.n == 1;
  }

  template <class Mk>
  void drive(char const * a, bool shared, int own, Mk mk)
  {
    ex::inplace_stop_source stop;
    env_ e{stop.get_token()};
    int const steps = MC_THOROUGH ? 3 : 2;
    // what one operation does (shared: the first does everything, each later one only its `own` part)
    std::string want;
    int work;
    {
      int r0 = runs;
      auto s = mk();
      if (runs != r0) mc::fail("%s: work was done while the sender was made", a);
      once(std::move(s), e, want);
      work = runs - r0;
      if (conn) mc::fail("%s: %d child operation(s) outlive the operation", a, conn);
    }
    {
      int r0 = runs;
      auto first = mk();
      using Sn = decltype(first);
      constexpr bool copyable = std::copy_constructible<Sn>;
      constexpr bool again = copyable && ex::sender_to<Sn const &, rcvr> && ex::sender_to<Sn&, rcvr>;
      std::optional<Sn> s(std::move(first));
      int started = 0, alive = conn;
      auto calm = [&](char const * what) {
        int w = shared ? (started ? work + (started - 1) * own : 0) : started * work;
        if (runs - r0 != w) mc::fail("%s: after %s, %d unit(s) of work were done instead of %d", a, what, runs - r0, w);
        if (!shared && conn != alive) mc::fail("%s: after %s, %d child operation(s) still exist", a, what, conn);
      };
      auto check = [&](std::string const & got, char const * what) {
        ++started;
        if (got != want) mc::fail("%s: %s completed with \"%s\", but a fresh sender completes with \"%s\"", a, what, got.c_str(), want.c_str());
        calm(what);
      };
      calm("making the sender");
      for (int i = 0; i < steps; ++i)
      {
        switch (mc::choose(again ? 8 : copyable ? 3 : 2, "step"))
        {
        case 0: i = steps; break;
        case 1: { std::optional<Sn> b(std::move(*s)); s.reset(); s.emplace(std::move(*b)); calm("moving"); break; }
        case 2: if constexpr (copyable) { Sn b(std::as_const(*s)); calm("copying"); } break;
        case 3: if constexpr (again) { { seen m; auto op = ex::connect(std::as_const(*s), rcvr{&m, e}); if (m.n) mc::fail("%s: completed before being started", a); } calm("dropping an operation which was not started"); } break;
        case 4: if constexpr (again) { std::string got; if (mc::choose(2, "const")) once(std::as_const(*s), e, got); else once(*s, e, got); check(got, "an operation from an lvalue"); } break;
        case 5:
          if constexpr (again)
          {
            h::throw_at = 1 + mc::choose(4, "throw at");
            try { seen m; auto op = ex::connect(std::as_const(*s), rcvr{&m, e}); h::throw_at = 0; }
            catch (h::boom const &) {}
            h::throw_at = 0;
            calm("a failing connect");
          }
          break;
        case 6:
          if constexpr (again)
          {
            seen m1, m2;
            auto cpy = std::as_const(*s);
            {
              auto op1 = ex::connect(*s, rcvr{&m1, e});
              auto op2 = ex::connect(std::move(cpy), rcvr{&m2, e});
              ex::start(op2);
              m2.g.wait(); mc::join_all();
              if (m1.n) mc::fail("%s: completed before being started", a);
              ex::start(op1);
              m1.g.wait(); mc::join_all();
            }
            ++started;
            check(m1.s, "the first of two operations");
            --started;
            check(m2.s, "the second of two operations");
          }
          break;
        case 7:
          if constexpr (again)
          {
            seen m;
            {
              auto cpy = std::make_unique<Sn>(std::as_const(*s));
              auto op = ex::connect(*cpy, rcvr{&m, e});
              cpy.reset();
              ex::start(op);
              m.g.wait(); mc::join_all();
            }
            check(m.s, "an operation which outlives its sender");
          }
          break;
        }
      }
      switch (mc::choose(4, "end"))
      {
      case 0: { std::string got; once(std::move(*s), e, got); check(got, "the last operation"); break; }
      case 1: { { seen m; auto op = ex::connect(std::move(*s), rcvr{&m, e}); if (m.n) mc::fail("%s: completed before being started", a); } calm("dropping the last operation"); break; }
      case 2: break;
      case 3: {
        seen m;
        {
          auto mine = std::make_unique<Sn>(std::move(*s));
          s.reset();
          auto op = ex::connect(std::move(*mine), rcvr{&m, e});
          mine.reset();
          ex::start(op);
          m.g.wait(); mc::join_all();
        }
        check(m.s, "the last operation, which outlives its sender");
        break;
      }
      }
      s.reset();
      calm("dropping the sender");
      mc::outcome("%d", started);
    }
    if (conn) mc::fail("%s: %d child operation(s) were never destroyed", a, conn);
  }

  template <int J> using leaf_of = std::tuple_element_t<J, std::tuple<src<V(tv)>, src<V(tv&)>, src<V(tv, int)>, src<E(tv)>, src<S()>>>;
  template <class F> void with_leaf(F f)
  {
    int n = mc::choose(5, "leaf");
    [&]<int... J>(std::integer_sequence<int, J...>) { ((J == n ? f(std::integral_constant<int, J>{}) : void()), ...); }(std::make_integer_sequence<int, 5>{});
  }
  template <int K> void row()
  {
    runs = conn = 0;
    with_leaf([]<int J>(std::integral_constant<int, J>) {
      if constexpr ((ad<K>::mask >> J & 1) != 0)
      {
        st t;
        std::string_view nm = ad<K>::name;
        drive(ad<K>::name, nm.starts_with("split"), nm == "split_then" && J < 3, [&] { return ad<K>::wrap(leaf_of<J>{}, t); });
      }
    });
  }
  template <int K> struct reg
  {
    mc::registrar r{"P38", (new std::string(std::string("value_") + ad<K>::name))->c_str(), +[] { row<K>(); }, {.preempt = 0}};
  };
  template <int... K> int regs(std::integer_sequence<int, K...>)
  {
    ([] { if constexpr (K % MC_PARTS == MC_PART) static reg<K> r; }(), ...);
    return 0;
  }
  int all = regs(std::make_integer_sequence<int, count>{});

  // ---- sources, coroutines, type-erased senders, sequences -------------------------------------------------------------
  template <class T> T coro(int how)
  {
    tv x(4);
    effect();
    if (how == 1) throw 5;
    if (how == 2) co_await ex::just_stopped();
    if (how == 3) co_return co_await (src<V(tv)>{} | ex::then(fun<0>{}));
    co_return x;
  }
  using as_rcvr = exec::any_receiver<ex::completion_signatures<V(int), V(), E(std::exception_ptr), E(int), S()>, exec::queries<ex::inplace_stop_token(ex::get_stop_token_t) noexcept>>;
  struct each
  {
    tv x{30};
    int operator()(int i) const { effect(); return x.get() + i; }
  };
  struct fill { tv x{9}; auto operator()(auto sink) { look(x); effect(); return sink(std::move(x), 2); } };
  void sources()
  {
    runs = conn = 0;
    int how;
    switch (mc::choose(20, "source"))
    {
    case 0: drive("just", false, 0, [] { return ex::just(tv(1), 2); }); break;
    case 1: drive("just_error", false, 0, [] { return ex::just_error(tv(1)); }); break;
    case 2: drive("just_stopped", false, 0, [] { return ex::just_stopped(); }); break;
    case 3: drive("just_from", false, 0, [] { return exec::just_from(fill{}); }); break;
    case 4: how = mc::choose(4); drive("exec::task", false, 0, [how] { return coro<exec::task<tv>>(how); }); break;
    case 5: how = mc::choose(4); drive("task", false, 0, [how] { return coro<ex::task<tv>>(how); }); break;
    case 6: drive("any_sender", false, 0, [] { return exec::any_sender<as_rcvr>(src<V(tv)>{} | ex::then(fun<0>{}) | ex::then([](tv x) { return x.get(); })); }); break;
    case 7: drive("any_sender error", false, 0, [] { return exec::any_sender<as_rcvr>(src<E(tv)>{} | ex::let_error([](tv& x) { effect(); return ex::just_error(x.get()); })); }); break;
    case 8: drive("create", false, 0, [] { return exec::create<V(tv)>([x = tv(8)](auto& ctx) noexcept { effect(); h::quiet q; ex::set_value(std::move(ctx.receiver), tv(x)); }); }); break;
    case 9: drive("iterate", false, 0, [] { return exec::iterate(std::array<int, 3>{1, 2, 3}) | exec::transform_each(ex::then(each{})) | exec::ignore_all_values(); }); break;
    case 10: drive("iterate a container", false, 0, [] { return exec::iterate(std::vector<int>{1, 2, 3}) | exec::transform_each(ex::then(each{})) | exec::ignore_all_values(); }); break;
    case 11: drive("merge", false, 0, [] { return exec::merge(exec::iterate(std::array<int, 2>{1, 2}) | exec::transform_each(ex::then(each{})), exec::iterate(std::array<int, 1>{5})) | exec::ignore_all_values(); }); break;
    case 12: drive("merge_each", false, 0, [] {
        return exec::merge_each(exec::iterate(std::array<int, 2>{1, 2}) | exec::transform_each(ex::then([x = tv(7)](int i) noexcept { effect(); return exec::iterate(std::array<int, 2>{x.get(), i}); })))
             | exec::transform_each(ex::then(each{})) | exec::ignore_all_values();
      });
      break;
    case 13: drive("sequence of a sender", false, 0, [] { return exec::transform_each(src<V(tv)>{}, ex::then(fun<1>{})) | exec::ignore_all_values(); }); break;
    case 14: drive("thread schedule", false, 0, [] { return ex::schedule(h::thread_sched{1, h::VAL}) | ex::then(fun<0>{}); }); break;
    case 15: drive("trampoline", false, 0, [] { return ex::schedule(exec::trampoline_scheduler{}) | ex::then(fun<0>{}); }); break;
    case 16: drive("task_scheduler", false, 0, [] { return ex::schedule(ex::task_scheduler(ex::inline_scheduler{})) | ex::then(fun<0>{}) | ex::bulk(ex::par, 3, pfn{}); }); break;
    case 17: drive("task_scheduler bulk chunked", false, 0, [] { return ex::schedule(ex::task_scheduler(ex::inline_scheduler{})) | ex::then(fun<0>{}) | ex::bulk_chunked(ex::par, 2, pfn{}); }); break;
    case 18: drive("read_env", false, 0, [] { return ex::read_env(ex::get_stop_token) | ex::then([f = fun<0>{}](auto) mutable { return f(); }); }); break;
    case 19: drive("when_all of copies", false, 0, [] { auto s = src<V(tv)>{} | ex::then(fun<0>{}); return ex::when_all(s, s, ex::just(tv(3))); }); break;
    }
  }
  std::conditional_t<0 == MC_PART, mc::registrar, decltype(nullptr)> src_reg = [] {
    if constexpr (0 == MC_PART) return mc::registrar{"P38", "sources", +[] { sources(); }, {.preempt = 0}};
    else return nullptr;
  }();
}  // namespace
