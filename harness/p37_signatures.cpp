// P37: operations complete only as their sender advertises (completion signatures, value categories included).
// PARTS: 8
#define H_FAULTS 1
#include "catalogue.hpp"
#include <exec/any_sender_of.hpp>
#include <exec/create.hpp>
#include <exec/just_from.hpp>
#include <exec/single_thread_context.hpp>
#include <exec/static_thread_pool.hpp>
#include <exec/task.hpp>
#include <exec/timed_thread_scheduler.hpp>
#include <exec/trampoline_scheduler.hpp>
#include <stdexec/coroutine.hpp>
using h::tv;

namespace
{
  template <class T> struct rv { struct type; };  // (not T itself: const arguments of function types are not const)
  template <class T> struct rv<T&&> { using type = typename rv<T>::type; };
  template <class T> struct norm;  // a signature without && on its arguments
  template <class Tag, class... As> struct norm<Tag(As...)> { using type = Tag (*)(typename rv<As>::type...); };
  template <class Sig, class Sigs> inline constexpr bool listed = false;
  template <class Sig, class... Sigs>
  inline constexpr bool listed<Sig, ex::completion_signatures<Sigs...>> = (std::is_same_v<typename norm<Sig>::type, typename norm<Sigs>::type> || ...);

  inline bool in_ctx = false;  // a context with threads of its own is around
  struct seen { h::gate g; int n = 0; int ch = 0; bool ok = true; char const * sig = ""; };
  struct env_
  {
    ex::inplace_stop_token tok;
    ex::inplace_stop_token query(ex::get_stop_token_t) const noexcept { return tok; }
    ex::inline_scheduler query(ex::get_scheduler_t) const noexcept { return {}; }
    ex::inline_scheduler query(ex::get_start_scheduler_t) const noexcept { return {}; }
  };
  template <class Sn> struct sigs_of { using with = ex::completion_signatures_of_t<Sn, env_>; using type = with; };
  template <class Sn> requires requires { typename ex::completion_signatures_of_t<Sn>; }
  struct sigs_of<Sn> { using with = ex::completion_signatures_of_t<Sn, env_>; using type = ex::completion_signatures_of_t<Sn>; };
  template <class Sn>
  struct rcvr
  {
    using receiver_concept = ex::receiver_t;
    seen* m;
    env_  e;
    template <class Sig> void hit(int c, char const * what) noexcept
    {
      if (++m->n > 1) mc::fail("second completion");
      m->ch = c;
      struct d { seen* m; ~d() { m->g.done(); } } fin{m};
      if (!listed<Sig, typename sigs_of<Sn>::with> || !listed<Sig, typename sigs_of<Sn>::type>) { m->ok = false; m->sig = what; }
    }
    template <class... As> void set_value(As&&...) noexcept { hit<ex::set_value_t(As&&...)>(0, __PRETTY_FUNCTION__); }
    template <class E> void set_error(E&&) noexcept { hit<ex::set_error_t(E&&)>(1, __PRETTY_FUNCTION__); }
    void set_stopped() noexcept { hit<ex::set_stopped_t()>(2, "set_stopped()"); }
    env_ get_env() const noexcept { return e; }
  };

  // ---- leaves: complete inline with one of their signatures --------------------------------------------------------
  template <class... Sigs>
  struct leaf
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures<Sigs...>;
    int k;
    template <class R>
    struct op
    {
      R r; int k;
      op(R rr, int kk) : r(std::move(rr)), k(kk) {}
      op(op&&) = delete;
      template <class T> struct cell
      {
        std::optional<std::decay_t<T>> v;
        cell()
        {
          h::quiet q;
          if constexpr (std::is_same_v<std::decay_t<T>, std::exception_ptr>) v.emplace(std::make_exception_ptr(h::boom{}));
          else v.emplace(7);
        }
      };
      template <class Tag, class... As> void fire(Tag (*)(As...))
      {
        [&](auto&&... c) { Tag()(std::move(r), static_cast<As&&>(*c.v)...); }(cell<As>()...);
      }
      void start() & noexcept
      {
        int i = 0;
        (void) ((i++ == k ? (fire(static_cast<Sigs*>(nullptr)), true) : false) || ...);
      }
    };
    template <class R> auto connect(R r) const -> op<R> { return op<R>(std::move(r), k); }
  };
  using V = ex::set_value_t; using E = ex::set_error_t; using S = ex::set_stopped_t;
#define LEAVES(X)                                      \
  X(0, V(tv))                                          \
  X(1, V(tv&), S())                                    \
  X(2, V(tv const &), E(int))                          \
  X(3, V(tv), E(tv&), S())                             \
  X(4, V(int), E(std::exception_ptr))                  \
  X(5, V(tv), E(int const &), E(tv), S())              \
  X(6, V(tv, int&), S())                               \
  X(7, V(tv&, int), V(tv), E(int), S())                \
  X(8, V(), E(tv const &), S())                        \
  X(9, V(), V(int), E(std::exception_ptr))             \
  X(10, E(tv))                                         \
  X(11, S())
  template <int> struct leaf_of;
#define X(N, ...) template <> struct leaf_of<N> { using type = leaf<__VA_ARGS__>; static constexpr int sigs = []<class... Ss>(leaf<Ss...>*) { return int(sizeof...(Ss)); }(static_cast<type*>(nullptr)); static constexpr char const * name = #__VA_ARGS__; };
  LEAVES(X)
#undef X
  constexpr int nleaves = 12;
  constexpr unsigned ANY = 0xfff, ONE = 0b000100111111 | 0b1000000, ONE_V = 0b000000111111, NOERR = 0b0000'0100'0011, VOID1 = 1u << 8, HASV = 0x3ff;
  template <class F> void with_leaf(F f)
  {
    int n = mc::choose(nleaves, "leaf");
    [&]<int... J>(std::integer_sequence<int, J...>) { ((J == n ? f(std::integral_constant<int, J>{}) : void()), ...); }(std::make_integer_sequence<int, nleaves>{});
  }

  template <class Mk>
  void run(char const * a, char const * b, Mk mk)
  {
    ex::inplace_stop_source src;
    seen m;
    env_ e{src.get_token()};
    {
      auto s = mk();
      using Sn = decltype(s);
      std::optional<int> thrown;
      h::throw_at = mc::choose(5, "throw at");
      if (mc::choose(2, "stop first")) src.request_stop();
      auto go = [&]<class X>(X&& x) {
        auto op = ex::connect(std::forward<X>(x), rcvr<X>{&m, e});
        ex::start(op);
        m.g.wait();
        if (!in_ctx) mc::join_all();
        h::throw_at = 0;
      };
      try
      {
        constexpr bool reusable = std::copy_constructible<Sn> && requires { typename ex::completion_signatures_of_t<Sn const &, env_>; };
        if constexpr (reusable)
        {
          if (mc::choose(2, "lvalue")) go(std::as_const(s));
          else go(std::move(s));
        }
        else go(std::move(s));
      }
      catch (h::boom const &) { thrown = 1; }
      h::throw_at = 0;
      if (thrown ? m.n : m.n != 1) mc::fail("%s(%s): %d completions", a, b, m.n);
      if (!m.ok) mc::fail("%s(%s): completed with a signal that is not among its completion signatures: %s", a, b, m.sig);
    }
    mc::outcome("%d", m.n ? m.ch : 3);
  }

  // ---- adaptors -------------------------------------------------------------------------------------------------------
  struct st
  {
    ex::inplace_stop_source src;
    ex::simple_counting_scope scope;
    exec::async_scope ascope;
    bool used = false, aused = false;
    ~st()
    {
      h::throw_at = 0;
      h::rec r, r2;
      scope.close();
      h::go(scope.join(), r, env_{});
      h::go(ascope.on_empty(), r2, env_{});
      mc::join_all();
    }
  };
  auto f0 = [](auto&&...) { h::maybe(); };
  auto f1 = [](auto&&...) { h::maybe(); return tv(1); };
  auto fn = [](auto&&...) noexcept { return 2; };
  auto fr = [](auto&& x, auto&&...) noexcept -> decltype(auto) { return (x); };
  constexpr int base = __COUNTER__ + 1;
  template <int> struct ad;
#define AD(NAME, MASK, ...)                                                                                  \
  template <> struct ad<__COUNTER__ - base>                                                                  \
  {                                                                                                          \
    static constexpr char const * name = #NAME;                                                              \
    static constexpr unsigned mask = (MASK);                                                                 \
    template <class X> static auto wrap(X s, st& t) { (void) t; return __VA_ARGS__; }                        \
  };
  AD(then, ANY, s | ex::then(f1))
  AD(then_void, ANY, s | ex::then(f0))
  AD(then_noexcept, ANY, s | ex::then(fn))
  AD(upon_error, ANY, s | ex::upon_error(f1))
  AD(upon_error_noexcept, ANY, s | ex::upon_error(fn))
  AD(upon_stopped, ANY, s | ex::upon_stopped(f1))
  AD(upon_stopped_noexcept, ANY, s | ex::upon_stopped(fn))
  AD(let_value_just, ANY, s | ex::let_value([](auto&... x) { h::maybe(); return ex::just(x...); }))
  AD(let_value_noexcept, ANY, s | ex::let_value([](auto&...) noexcept { return ex::just_error(5); }))
  AD(let_value_stop, ANY, s | ex::let_value([](auto&...) noexcept { return ex::just_stopped(); }))
  AD(let_value_leaf, ANY, s | ex::let_value([](auto&...) noexcept { return leaf<V(tv&), E(tv&)>{int(mc::choose(2))}; }))
  AD(let_error, ANY, s | ex::let_error([](auto& x) { h::maybe(); return ex::just_error(x); }))
  AD(let_error_value, ANY, s | ex::let_error([](auto&) noexcept { return leaf<V(tv&), E(tv&)>{int(mc::choose(2))}; }))
  AD(let_stopped, ANY, s | ex::let_stopped([] { h::maybe(); return ex::just(tv(1)); }))
  AD(let_stopped_noexcept, ANY, s | ex::let_stopped([]() noexcept { return ex::just(1); }))
  AD(continues_on_inline, ANY, ex::continues_on(s, ex::inline_scheduler{}))
  AD(continues_on_thread, ANY, ex::continues_on(s, h::thread_sched{1, h::pick_chan()}))
  AD(starts_on, ANY, ex::starts_on(h::thread_sched{1, h::pick_chan()}, s))
  AD(on, ANY, ex::on(ex::inline_scheduler{}, s))
  AD(when_all, ONE, ex::when_all(s, ex::just(1)))
  AD(when_all_alone, ONE, ex::when_all(s))
  AD(when_all_two, ONE, ex::when_all(ex::just(tv(1)), s | ex::then(f0)))
  AD(when_all_with_variant, ANY, ex::when_all_with_variant(s))
  AD(when_any, HASV, exec::when_any(s, ex::just(1)))
  AD(when_any_alone, ANY, exec::when_any(s))
  AD(into_variant, ANY, ex::into_variant(s))
  AD(into_tuple, ONE, exec::into_tuple(s))
  AD(stopped_as_optional, ONE_V, ex::stopped_as_optional(s))
  AD(stopped_as_error, ANY, ex::stopped_as_error(s, tv(3)))
  AD(materialize, ANY, exec::materialize(s))
  AD(finally, ANY, exec::finally(s, ex::just()))
  AD(finally_2nd, ANY, exec::finally(ex::just(tv(1)), s | ex::then(fn) | ex::then([](auto&&...) noexcept {})))
  AD(sequence_1st, ANY, exec::sequence(s | ex::then([](auto&&...) noexcept {}), ex::just(tv(2))))
  AD(sequence_2nd, ANY, exec::sequence(ex::just(), s))
  AD(repeat_n, ANY, exec::repeat_n(s | ex::then([](auto&&...) noexcept {}), 2))
  AD(repeat_until, HASV, exec::repeat_until(s | ex::then([](auto&&...) noexcept { return true; })))
  AD(stop_when, ANY, ex::__stop_when(s, t.src.get_token()))
  AD(unstoppable, ANY, ex::unstoppable(s))
  AD(unless_stop_requested, ANY, exec::unless_stop_requested(s))
  AD(variant_sender, ANY, exec::variant_sender<X, decltype(ex::just_error(1.5))>(s))
  AD(bulk, ANY, s | ex::bulk(ex::seq, 2, [](int, auto&&...) { h::maybe(); }))
  AD(bulk_noexcept, ANY, s | ex::bulk(ex::seq, 2, [](int, auto&&...) noexcept {}))
  AD(bulk_chunked, ANY, s | ex::bulk_chunked(ex::seq, 2, [](int, int, auto&&...) { h::maybe(); }))
  AD(bulk_unchunked, ANY, s | ex::bulk_unchunked(ex::seq, 2, [](int, auto&&...) { h::maybe(); }))
  AD(affine, ANY, ex::affine(s))
  AD(associate, ANY, ex::associate(s, t.scope.get_token()))
  AD(nest, ANY, t.ascope.nest(s))
  AD(split, ANY, exec::split(s))
  AD(ensure_started, ANY, exec::ensure_started(s))
  AD(spawn_future, ANY, ex::spawn_future(s, t.scope.get_token()))
  AD(scope_future, ANY, t.ascope.spawn_future(s))
  AD(write_env, ANY, ex::write_env(s, ex::prop{ex::get_stop_token, ex::never_stop_token{}}))
  AD(let_value_of_split, ANY, exec::split(s) | ex::let_value([](auto&...) { h::maybe(); return ex::just(); }))
  constexpr int count = __COUNTER__ - base;

  template <int K> void row()
  {
    with_leaf([]<int J>(std::integral_constant<int, J>) {
      if constexpr ((ad<K>::mask >> J & 1) != 0)
      {
        using L = typename leaf_of<J>::type;
        int k = mc::choose(leaf_of<J>::sigs, "completion");
        st t;
        run(ad<K>::name, leaf_of<J>::name, [&] { return ad<K>::wrap(L{k}, t); });
      }
    });
  }
  template <int K> struct reg
  {
    mc::registrar r{"P37", (new std::string(std::string("adaptor_") + ad<K>::name))->c_str(), +[] { row<K>(); }, {.preempt = 0}};
  };
  template <int... K> int regs(std::integer_sequence<int, K...>)
  {
    ([] { if constexpr (K % MC_PARTS == MC_PART) static reg<K> r; }(), ...);
    return 0;
  }
  int all = regs(std::make_integer_sequence<int, count>{});

  // ---- two senders ------------------------------------------------------------------------------------------------------
  constexpr int base2 = __COUNTER__ + 1;
  template <int> struct two;
#define TWO(NAME, M1, M2, ...)                                                                               \
  template <> struct two<__COUNTER__ - base2>                                                                \
  {                                                                                                          \
    static constexpr char const * name = #NAME;                                                              \
    static constexpr unsigned m1 = (M1), m2 = (M2);                                                          \
    template <class X, class Y> static auto wrap(X x, Y y) { return __VA_ARGS__; }                           \
  };
  TWO(when_all, ONE, ONE, ex::when_all(x, y))
  TWO(when_any, ANY, ANY, exec::when_any(x, y))
  TWO(let_value, ANY, ANY, x | ex::let_value([y](auto&...) { h::maybe(); return y; }))
  TWO(let_value_noexcept, ANY, ANY, x | ex::let_value([y](auto&...) noexcept { return y; }))
  TWO(let_error, ANY, ANY, x | ex::let_error([y](auto&) noexcept { return y; }))
  TWO(let_stopped, ANY, ANY, x | ex::let_stopped([y]() noexcept { return y; }))
  TWO(sequence, VOID1, ANY, exec::sequence(x, y))
  TWO(finally, ANY, VOID1, exec::finally(x, y))
  TWO(finally_fails, ANY, 0b110000000000, exec::finally(x, y))
  constexpr int count2 = __COUNTER__ - base2;
  template <int K> void row2()
  {
    with_leaf([]<int J>(std::integral_constant<int, J>) {
      if constexpr ((two<K>::m1 >> J & 1) != 0)
      {
        int k = mc::choose(leaf_of<J>::sigs, "completion");
        with_leaf([k]<int N>(std::integral_constant<int, N>) {
          if constexpr ((two<K>::m2 >> N & 1) != 0 && (J + 3 * N) % 4 != 3)
          {
            int n = mc::choose(leaf_of<N>::sigs, "completion");
            static std::string nm = std::string(leaf_of<J>::name) + " | " + leaf_of<N>::name;
            run(two<K>::name, nm.c_str(), [&] { return two<K>::wrap(typename leaf_of<J>::type{k}, typename leaf_of<N>::type{n}); });
          }
        });
      }
    });
  }
  template <int K> struct reg2
  {
    mc::registrar r{"P37", (new std::string(std::string("pair_") + two<K>::name))->c_str(), +[] { row2<K>(); }, {.preempt = 0}};
  };
  template <int... K> int regs2(std::integer_sequence<int, K...>)
  {
    ([] { if constexpr (K % MC_PARTS == MC_PART) static reg2<K> r; }(), ...);
    return 0;
  }
  int all2 = regs2(std::make_integer_sequence<int, count2>{});

  // ---- the schedulers of the library, and their customisations -------------------------------------------------------------
  using any_sigs = ex::completion_signatures<ex::set_value_t(), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>;
  using any_sch = exec::any_scheduler<exec::any_sender<exec::any_receiver<any_sigs, exec::queries<ex::inplace_stop_token(ex::get_stop_token_t) noexcept>>>>;
  template <class Sch> void forms(char const * name, Sch sch)
  {
    switch (mc::choose(8, "form"))
    {
    case 0: run(name, "schedule", [&] { return ex::schedule(sch); }); break;
    case 1: run(name, "continues_on V(tv&)", [&] { return ex::continues_on(leaf<V(tv&), E(tv&)>{int(mc::choose(2))}, sch); }); break;
    case 2: run(name, "starts_on", [&] { return ex::starts_on(sch, leaf<V(tv), E(int)>{int(mc::choose(2))}); }); break;
    case 3: run(name, "on", [&] { return ex::on(sch, leaf<V(tv const &), S()>{int(mc::choose(2))}); }); break;
    case 4: run(name, "bulk", [&] { return ex::schedule(sch) | ex::then([]() noexcept { return 3; }) | ex::bulk(ex::par, 2, [](int, int&) noexcept {}); }); break;
    case 5: run(name, "bulk throwing", [&] { return ex::schedule(sch) | ex::then([] { h::maybe(); return 3; }) | ex::bulk_unchunked(ex::par, 2, [](int, int&) noexcept(std::is_same_v<Sch, ex::task_scheduler>) {}); }); break;
    case 6: run(name, "when_all", [&] { return ex::when_all(ex::schedule(sch), ex::schedule(sch) | ex::then(f1)); }); break;
    case 7: run(name, "let_value", [&] { return ex::schedule(sch) | ex::let_value([] { h::maybe(); return ex::just(1); }); }); break;
    }
  }
  template <class F> void on_loop(F f)
  {
    ex::run_loop loop;
    std::thread th([&] { loop.run(); });
    f(loop.get_scheduler());
    loop.finish();
    th.join();
  }
  template <int K> void own_row()
  {
    in_ctx = K != 0 && K != 1 && K != 5;
    if constexpr (K == 0) forms("inline_scheduler", ex::inline_scheduler{});
    else if constexpr (K == 1) forms("trampoline_scheduler", exec::trampoline_scheduler{});
    else if constexpr (K == 2) on_loop([](auto sch) { forms("run_loop", sch); });
    else if constexpr (K == 3)
    {
      h::quiet q;
      exec::static_thread_pool pool(1, {2, 2}, exec::no_numa_policy{});
      forms("static_thread_pool", pool.get_scheduler());
    }
    else if constexpr (K == 4) on_loop([](auto sch) { forms("task_scheduler(run_loop)", ex::task_scheduler(sch)); });
    else if constexpr (K == 5) forms("task_scheduler(inline_scheduler)", ex::task_scheduler(ex::inline_scheduler{}));
    else if constexpr (K == 6)
    {
      exec::timed_thread_context ctx;
      auto sch = ctx.get_scheduler();
      switch (mc::choose(3, "form"))
      {
      case 0: run("timed_thread", "schedule", [&] { return ex::schedule(sch); }); break;
      case 1: run("timed_thread", "schedule_at", [&] { return exec::schedule_at(sch, exec::now(sch)); }); break;
      case 2: run("timed_thread", "schedule_after", [&] { return exec::schedule_after(sch, std::chrono::milliseconds(1)); }); break;
      }
    }
    else if constexpr (K == 7) on_loop([](auto sch) {
      any_sch a(sch);
      run("any_scheduler(run_loop)", "schedule", [&] { return ex::schedule(a); });
    });
  }
#define OWN(K, N) std::conditional_t<K % MC_PARTS == MC_PART, mc::registrar, decltype(nullptr)> own_reg_##N = own_mk<K>(#N);
  template <int K> auto own_mk(char const * n)
  {
    if constexpr (K % MC_PARTS == MC_PART) return mc::registrar{"P37", (new std::string(std::string("own_") + n))->c_str(), +[] { own_row<K>(); }, {.preempt = 0}, {.preempt = 1}};
    else return nullptr;
  }
  OWN(0, inline_scheduler)
  OWN(1, trampoline_scheduler)
  OWN(2, run_loop)
  OWN(3, static_thread_pool)
  OWN(4, task_scheduler_loop)
  OWN(5, task_scheduler_inline)
  OWN(6, timed_thread)
  OWN(7, any_scheduler)

  // ---- sources, coroutines and type-erased senders -----------------------------------------------------------------------------
  template <class T> T coro(int how)
  {
    if (how == 1) throw 5;
    if (how == 2) co_await ex::just_stopped();
    if (how == 3) (void) co_await leaf<V(tv&), E(tv&)>{1};
    co_return tv(4);
  }
  template <class T> T vcoro(int how)
  {
    if (how == 1) throw 5;
    if (how == 2) co_await ex::just_stopped();
    if (how == 3) (void) co_await leaf<V(tv&), E(tv&)>{1};
    co_return;
  }
  struct typed_env { using error_types = ex::completion_signatures<ex::set_error_t(int), ex::set_error_t(std::exception_ptr)>; };
  ex::task<tv, typed_env> typed(int how)
  {
    if (how == 1) co_yield ex::with_error(6);
    if (how == 2) co_await ex::just_stopped();
    if (how == 3) throw 5;
    co_return tv(4);
  }
  struct noexc_env { using error_types = ex::completion_signatures<>; };
  ex::task<void, noexc_env> noexc(int how)
  {
    if (how == 2) co_await ex::just_stopped();
    co_return;
  }
  using as_rcvr = exec::any_receiver<ex::completion_signatures<V(), V(int), E(int), E(std::exception_ptr), S()>, exec::queries<ex::inplace_stop_token(ex::get_stop_token_t) noexcept>>;
  void sources()
  {
    int how;
    switch (mc::choose(14, "source"))
    {
    case 0: run("just", "", [] { return ex::just(tv(1), 2); }); break;
    case 1: run("just_error", "", [] { return ex::just_error(tv(1)); }); break;
    case 2: run("just_stopped", "", [] { return ex::just_stopped(); }); break;
    case 3: run("read_env", "", [] { return ex::read_env(ex::get_stop_token); }); break;
    case 4: run("just_from", "", [] { return exec::just_from([](auto sink) { h::maybe(); return sink(tv(1), 2); }); }); break;
    case 5: run("just_error_from", "", [] { return exec::just_error_from([](auto sink) noexcept { return sink(7); }); }); break;
    case 6: how = mc::choose(4, "how"); run("exec::task", "", [&] { h::quiet q; return coro<exec::task<tv>>(how); }); break;
    case 7: how = mc::choose(4, "how"); run("task", "", [&] { h::quiet q; return coro<ex::task<tv>>(how); }); break;
    case 8: how = mc::choose(4, "how"); run("exec::task void", "", [&] { h::quiet q; return vcoro<exec::task<void>>(how); }); break;
    case 9: how = mc::choose(4, "how"); run("task void", "", [&] { h::quiet q; return vcoro<ex::task<void>>(how); }); break;
    case 10: how = mc::choose(4, "how"); run("task typed errors", "", [&] { h::quiet q; return typed(how); }); break;
    case 11: how = mc::choose(2, "how") * 2; run("task no errors", "", [&] { h::quiet q; return noexc(how); }); break;
    case 12: how = mc::choose(5, "how"); run("any_sender", "", [&] { return exec::any_sender<as_rcvr>(leaf<V(), V(int), E(int), E(std::exception_ptr), S()>{how}); }); break;
    case 13: how = mc::choose(3, "how"); run("create", "", [&] {
        return exec::create<V(tv), E(tv&), S()>([how](auto& ctx) noexcept {
          if (how == 0) { std::optional<tv> v; { h::quiet q; v.emplace(1); } ex::set_value(std::move(ctx.receiver), std::move(*v)); }
          else if (how == 1) { std::optional<tv> v; { h::quiet q; v.emplace(1); } ex::set_error(std::move(ctx.receiver), *v); }
          else ex::set_stopped(std::move(ctx.receiver));
        });
      });
      break;
    }
  }
  std::conditional_t<0 == MC_PART, mc::registrar, decltype(nullptr)> src_reg = [] {
    if constexpr (0 == MC_PART) return mc::registrar{"P37", "sources", +[] { sources(); }, {.preempt = 0}};
    else return nullptr;
  }();
}  // namespace
