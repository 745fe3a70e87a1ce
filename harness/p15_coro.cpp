// P15: senders and coroutines interoperate without loss.
// PARTS: 4
#include "common.hpp"
#include <exec/at_coroutine_exit.hpp>
#include <exec/finally.hpp>
#include <exec/inline_scheduler.hpp>
#include <exec/on_coro_disposition.hpp>
#include <exec/sequence.hpp>
#include <exec/task.hpp>
#include <stdexec/coroutine.hpp>
using h::chan;
using h::tv;

namespace
{
  // ---------------------------------------------------------------------------------------------
  // locals of coroutines: the order of their destruction (kept in the checker's memory)
  long& ndead() { return mc::ctr(0); }
  long& dead(long i) { return mc::ctr(1 + i); }
  inline int g_alive = 0;
  struct loc
  {
    int  id;
    int* cell;  // leaks and double destruction become visible
    explicit loc(int i) : id(i), cell(new int(i)) { ++g_alive; }
    loc(loc const &) = delete;
    ~loc()
    {
      if (*cell != id) mc::fail("a local was corrupted");
      delete cell;
      --g_alive;
      if (ndead() < 30) dead(ndead()++) = id;
    }
  };
  void note(long id) { if (ndead() < 30) dead(ndead()++) = id; }
  bool order(std::initializer_list<long> l)
  {
    if (long(l.size()) != ndead()) return false;
    long i = 0;
    for (long x : l) if (dead(i++) != x) return false;
    return true;
  }
  std::string seq() { std::string s; for (long i = 0; i < ndead(); ++i) s += std::to_string(dead(i)) + " "; return s; }

  // ---------------------------------------------------------------------------------------------
  // a scheduler that cannot fail: its operations run on a fresh thread labelled with ctx id
  struct isched
  {
    int id = 1;
    struct snd
    {
      using sender_concept = ex::sender_t;
      using completion_signatures = ex::completion_signatures<ex::set_value_t()>;
      int id;
      template <class R>
      struct op
      {
        R r; int id;
        op(R rr, int i) : r(std::move(rr)), id(i) {}
        op(op&&) = delete;
        void start() & noexcept { std::thread([this] { h::ctx_id = id; ex::set_value(std::move(r)); }).detach(); }
      };
      template <class R> auto connect(R r) const -> op<R> { return op<R>(std::move(r), id); }
      struct env
      {
        int id;
        template <class... As> isched query(ex::get_completion_scheduler_t<ex::set_value_t>, As const &...) const noexcept { return isched{id}; }
      };
      env get_env() const noexcept { return env{id}; }
    };
    snd schedule() const noexcept { return snd{id}; }
    bool operator==(isched const &) const noexcept = default;
    using scheduler_concept = ex::scheduler_t;
  };
  static_assert(ex::scheduler<isched>);

  // a stop token of another type than inplace_stop_token
  template <class F>
  struct ocb : ex::inplace_stop_callback<F>
  {
    template <class T, class G> ocb(T t, G&& g) noexcept : ex::inplace_stop_callback<F>(t.t, static_cast<G&&>(g)) {}
  };
  struct otok
  {
    ex::inplace_stop_token t;
    template <class F> using callback_type = ocb<F>;
    bool stop_requested() const noexcept { return t.stop_requested(); }
    bool stop_possible() const noexcept { return t.stop_possible(); }
    bool operator==(otok const &) const noexcept = default;
  };

  // environments of the receiver
  template <class Sched, class Tok = ex::never_stop_token>
  struct cenv
  {
    Sched s;
    Tok   t{};
    Sched query(ex::get_start_scheduler_t) const noexcept { return s; }
    Sched query(ex::get_scheduler_t) const noexcept { return s; }
    Tok query(ex::get_stop_token_t) const noexcept { return t; }
  };
  using inl_env = cenv<ex::inline_scheduler>;
  inl_env ienv() { return {ex::inline_scheduler{}}; }

  // ---------------------------------------------------------------------------------------------
  // the kinds of tasks
  struct inl_task_env { using start_scheduler_type = ex::inline_scheduler; };
  template <class T> using IT = exec::basic_task<T, exec::__task::inline_task_context<T>>;  // no affinity
  template <class T> using ET = exec::task<T>;
  template <class T> using ST = ex::task<T>;                // affine through a task_scheduler
  template <class T> using SI = ex::task<T, inl_task_env>;  // affine to the inline scheduler


  template <template <class> class T> constexpr bool std_task = false;
  template <> constexpr bool std_task<ST> = true;
  template <> constexpr bool std_task<SI> = true;

  void expect(h::rec& r, chan c, int val)
  {
    if (c == h::VAL) MC_CHECK(r.is(h::VAL, val));
    else if (c == h::ERR) MC_CHECK(r.is(h::ERR, val));
    else MC_CHECK(r.is(h::STOP));
    mc::outcome("%s", r.str().c_str());
  }
  // the locals are gone when the task completes (those of a stopped exec::task live until it is destroyed)
  template <template <class> class T>
  void watch(h::rec& r, chan c)
  {
    g_alive = 0;
    if (c != h::STOP || std_task<T>) r.zero = &g_alive;
  }
#ifndef MC_PARTS
#define MC_PARTS 1
#define MC_PART 0
#endif
  template <int I> constexpr bool mine = I % MC_PARTS == MC_PART;
  // registers F for one kind of task; every part of this file is compiled with other kinds
#define EACH_TASK(N, F, ...)                                                                              \
  template <int K> void N##_reg()                                                                          \
  {                                                                                                        \
    if constexpr (mine<0 + K>) static mc::registrar a{"P15", #N "_inline_exec_task", +[] { F<IT>(); }, __VA_ARGS__};       \
    if constexpr (mine<1 + K>) static mc::registrar b{"P15", #N "_exec_task", +[] { F<ET>(); }, __VA_ARGS__};              \
    if constexpr (mine<2 + K>) static mc::registrar c{"P15", #N "_task", +[] { F<ST>(); }, __VA_ARGS__};                   \
    if constexpr (mine<3 + K>) static mc::registrar d{"P15", #N "_task_inline_scheduler", +[] { F<SI>(); }, __VA_ARGS__};  \
  }                                                                                                        \
  bool N##_done = (N##_reg<0>(), true);
  // the same for the kinds with affinity / one kind
#define AFFINE_TASK(N, F, ...)                                                                             \
  template <int K> void N##_reg()                                                                          \
  {                                                                                                        \
    if constexpr (mine<1 + K>) static mc::registrar b{"P15", #N "_exec_task", +[] { F<ET>(); }, __VA_ARGS__};              \
    if constexpr (mine<2 + K>) static mc::registrar c{"P15", #N "_task", +[] { F<ST>(); }, __VA_ARGS__};                   \
  }                                                                                                        \
  bool N##_done = (N##_reg<0>(), true);
#define EXEC_TASK(N, F, ...)                                                                               \
  template <int K> void N##_reg()                                                                          \
  {                                                                                                        \
    if constexpr (mine<0 + K>) static mc::registrar a{"P15", #N "_inline_exec_task", +[] { F<IT>(); }, __VA_ARGS__};       \
    if constexpr (mine<1 + K>) static mc::registrar b{"P15", #N "_exec_task", +[] { F<ET>(); }, __VA_ARGS__};              \
  }                                                                                                        \
  bool N##_done = (N##_reg<0>(), true);
#define PART_SCENARIO(P, N, F, ...)                                                                        \
  template <int K> void N##_reg()                                                                          \
  {                                                                                                        \
    if constexpr (mine<P + K>) static mc::registrar b{"P15", #N, +[] { F<K>(); }, __VA_ARGS__};              \
  }                                                                                                        \
  bool N##_done = (N##_reg<0>(), true);

  // ---------------------------------------------------------------------------------------------
  template <template <class> class T>
  T<tv> leaf(h::src s, int id)
  {
    loc l(id);
    tv  v = co_await std::move(s);
    co_return tv(v.get() + 100);
  }
  template <template <class> class T>
  void one()
  {
    chan   c = h::pick_chan();
    auto   m = h::pick_mode();
    int    hold = mc::choose(2, "moved first");
    h::rec r;
    watch<T>(r, c);
    auto t = leaf<T>(h::src{c, 5, m}, 1);
    if (hold) { auto u = std::move(t); h::go(std::move(u), r, ienv()); }
    else h::go(std::move(t), r, ienv());
    mc::join_all();
    expect(r, c, c == h::VAL ? 105 : 5);
    MC_CHECK(order({1}));
  }
  EACH_TASK(await_one, one, {.preempt = -1})

  template <template <class> class T>
  T<tv> two_body(h::src a, h::src b)
  {
    loc l(1);
    tv  x = co_await std::move(a);
    loc l2(2);
    tv  y = co_await std::move(b);
    co_return tv(x.get() * 10 + y.get());
  }
  template <template <class> class T>
  void two()
  {
    chan   c = h::pick_chan();
    auto   m = h::pick_mode(), n = h::pick_mode();
    h::rec r;
    watch<T>(r, c);
    h::go(two_body<T>(h::src{h::VAL, 4, m}, h::src{c, 5, n}), r, ienv());
    mc::join_all();
    expect(r, c, c == h::VAL ? 45 : 5);
    MC_CHECK(order({2, 1}));
  }
  EACH_TASK(await_two, two, {.preempt = -1})

  // tasks that await tasks; an error is caught at one of the levels, or not
  template <template <class> class T>
  T<tv> nest_body(h::src s, int depth, int catch_at)
  {
    loc l(depth);
    if (depth == 0)
    {
      tv v = co_await std::move(s);
      co_return tv(v.get() + 100);
    }
    int caught = 0;
    try
    {
      tv v = co_await nest_body<T>(s, depth - 1, catch_at);
      co_return tv(v.get() + 10);
    }
    catch (int e)
    {
      if (depth != catch_at) throw;
      caught = e;
    }
    co_return tv(1000 + caught);
  }
  template <template <class> class T>
  void nest()
  {
    chan   c = h::pick_chan();
    auto   m = h::pick_mode();
    int    at = c == h::ERR ? mc::choose(3, "caught at") : 0;
    h::rec r;
    watch<T>(r, c);
    h::go(nest_body<T>(h::src{c, 5, m}, 2, at), r, ienv());
    mc::join_all();
    MC_CHECK(order({0, 1, 2}));
    if (c == h::ERR && at) MC_CHECK(r.is(h::VAL, at == 1 ? 1015 : 1005));
    else expect(r, c, c == h::VAL ? 125 : 5);
  }
  EACH_TASK(nested, nest, {.preempt = -1})

  // a task that ends without awaiting anything
  template <template <class> class T>
  T<tv> plain_body(int how)
  {
    loc l(1);
    if (how == 1) throw int(7);
    co_return tv(6);
  }
  template <template <class> class T>
  T<void> void_body(int how)
  {
    loc l(1);
    if (how == 1) throw int(7);
    co_return;
  }
  template <template <class> class T>
  void plain()
  {
    int    how = mc::choose(2, "throws"), vd = mc::choose(2, "void");
    int    use = mc::choose(3, "use: run, drop, connect only");
    h::rec r;
    watch<T>(r, h::VAL);
    auto with = [&](auto t) {
      if (use == 1) return;
      auto* b = h::make(std::move(t), r, ienv());
      if (use == 2) delete b;
      else b->start();
    };
    if (vd) with(void_body<T>(how)); else with(plain_body<T>(how));
    if (use) { MC_CHECK(r.n == 0 && ndead() == 0); return; }
    MC_CHECK(how ? r.is(h::ERR, 7) : vd ? r.is(h::VAL) : r.is(h::VAL, 6));
    MC_CHECK(order({1}));
  }
  EACH_TASK(plain, plain, {.preempt = -1})

  // senders that are known to complete inline, and results of every shape
  template <template <class> class T>
  T<tv> shapes_body(int k, h::mode m)
  {
    loc l(1);
    switch (k)
    {
    case 0: co_return co_await ex::just(tv(3));
    case 1: co_await ex::just(); co_return tv(4);
    case 2: { auto [a, b] = co_await ex::just(tv(5), 6); co_return tv(a.get() * 10 + b); }
    case 3: co_await ex::just_error(int(7)); co_return tv(0);
    case 4: co_await ex::just_stopped(); co_return tv(0);
    case 5: { auto [a, b] = co_await (h::src{h::VAL, 8, m} | ex::let_value([](tv& t) { return ex::just(std::move(t), 9); })); co_return tv(a.get() * 10 + b); }
    case 6: co_await (h::src{h::VAL, 8, m} | ex::then([](tv) {})); co_return tv(10);
    case 7: co_return co_await (h::src{h::VAL, 8, m} | ex::then([](tv) -> tv { throw h::boom{11}; }));
    case 8: { auto o = co_await ex::stopped_as_optional(h::src{h::STOP, 8, m}); co_return tv(o ? 0 : 12); }
    case 9: co_return co_await ex::stopped_as_error(h::src{h::STOP, 8, m}, int(13));
    case 10: { auto [a, b] = co_await ex::when_all(leaf<T>(h::src{h::VAL, 1, m}, 2), h::src{h::VAL, 2, m}); co_return tv(a.get() * 10 + b.get()); }
    case 11: co_return co_await leaf<T>(h::src{h::VAL, 8, h::INLINE}, 2);
    default: co_return co_await ex::starts_on(isched{4}, ex::just(tv(14)));
    }
  }
  template <template <class> class T>
  void shapes()
  {
    int    k = mc::choose(13, "shape");
    auto   m = k >= 5 && k < 11 ? h::pick_mode() : h::INLINE;
    h::rec r;
    watch<T>(r, k == 4 ? h::STOP : h::VAL);
    h::go(shapes_body<T>(k, m), r, ienv());
    mc::join_all();
    long val[] = {3, 4, 56, 7, 0, 89, 10, 1011, 12, 13, 1012, 108, 14};
    expect(r, k == 3 || k == 7 || k == 9 ? h::ERR : k == 4 ? h::STOP : h::VAL, val[k]);
  }
  EACH_TASK(shapes, shapes, {.preempt = -1})

  // ---------------------------------------------------------------------------------------------
  // stop requests
  template <template <class> class T>
  T<tv> stop_body(h::ssrc s, int depth)
  {
    loc l(depth);
    if (depth) co_return co_await stop_body<T>(s, depth - 1);
    tv v = co_await std::move(s);
    co_return tv(v.get() + 100);
  }
  template <template <class> class T, class Tok>
  void stop(int depth, bool never)
  {
    for (auto& x : h::ssrc_state) x = 0;
    int    when = mc::choose(2, "stop: before, meanwhile");
    int    stops = 0;
    h::rec r;
    watch<T>(r, h::STOP);
    {
      h::gate g;
      ex::inplace_stop_source src;
      cenv<ex::inline_scheduler, Tok> env{{}, Tok{src.get_token()}};
      if (when == 0) src.request_stop();
      h::go(stop_body<T>(h::ssrc(never ? h::NONE : h::VAL, 5, 0, &stops), depth), r, g, env);
      if (when == 1) src.request_stop();
      g.wait();
    }
    mc::join_all();
    MC_CHECK(order({0}) || order({0, 1}));
    if (never) MC_CHECK(r.is(h::STOP) && stops == 1);
    else if (r.ch == h::STOP) MC_CHECK(r.is(h::STOP) && stops == 1);
    else MC_CHECK(r.is(h::VAL, 105));
    mc::outcome("%s", r.str().c_str());
  }
#define EACH_STOP(N, TOK, D, NEVER, ...)                                            \
  template <template <class> class T> void N##_f() { stop<T, TOK>(D, NEVER); }      \
  EACH_TASK(N, N##_f, __VA_ARGS__)
  EACH_STOP(stop, ex::inplace_stop_token, 0, true, {.preempt = -1})
  EACH_STOP(stop_race, ex::inplace_stop_token, 0, false, {.preempt = -1})
  EACH_STOP(stop_nested, ex::inplace_stop_token, 1, false, {.preempt = -1})
  EACH_STOP(stop_other_token, otok, 0, true, {.preempt = -1})
  EACH_STOP(stop_race_other_token, otok, 0, false, {.preempt = -1})
  EACH_STOP(stop_nested_other_token, otok, 1, false, {.preempt = -1})
}

namespace
{
  // ---------------------------------------------------------------------------------------------
  // scheduler affinity: a task that starts on a scheduler resumes there after every await
  using aff_env = cenv<isched>;
  aff_env aenv() { return {isched{1}}; }
  struct here
  {
    int old = h::ctx_id;
    explicit here(int i) { h::ctx_id = i; }
    ~here() { h::ctx_id = old; }
  };
  void on(int id, char const * where)
  {
    if (h::ctx_id != id) mc::fail("%s on context %d instead of %d", where, h::ctx_id, id);
  }
  template <template <class> class T>
  T<tv> aff_body(h::src a, h::src b, int catches)
  {
    loc l(1);
    on(1, "started");
    tv x = co_await std::move(a);
    on(1, "resumed with a value");
    int y = -1;
    if (catches)
    {
      try { tv v = co_await std::move(b); y = v.get(); }
      catch (int e) { y = e + 100; }
    }
    else
    {
      auto o = co_await ex::stopped_as_optional(std::move(b));
      y = o ? (*o).get() : 99;
    }
    on(1, "resumed");
    co_return tv(x.get() * 1000 + y);
  }
  template <template <class> class T>
  void affinity()
  {
    chan   c = h::pick_chan();
    auto   m = h::pick_mode(), n = h::pick_mode();
    int    catches = mc::choose(2, "catches");
    h::rec r;
    here   ctx(1);
    g_alive = 0;
    h::go(aff_body<T>(h::src{h::VAL, 4, m, nullptr, 7}, h::src{c, 5, n, nullptr, 8}, catches), r, aenv());
    mc::join_all();
    if (c == h::VAL) expect(r, c, 4005);
    else if (catches) { if (c == h::ERR) expect(r, h::VAL, 4105); else expect(r, c, 0); }
    else if (c == h::STOP) expect(r, h::VAL, 4099);
    else expect(r, c, 5);
    if (r.ctx != 1) mc::fail("completed on context %d", r.ctx);
  }
  AFFINE_TASK(affinity, affinity, {.preempt = -1})

  using h::VAL; using h::ERR; using h::STOP;
  // ... whatever kind of sender is awaited: senders that complete elsewhere on some channels only, or through a later stage
  template <chan... Elsewhere>
  struct part  // completes inline, except on the given channels
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures<ex::set_value_t(tv), ex::set_error_t(int), ex::set_stopped_t()>;
    h::src s;
    struct env
    {
      template <class Tag>
      auto query(ex::__get_completion_behavior_t<Tag>) const noexcept
      {
        constexpr chan c = std::is_same_v<Tag, ex::set_value_t> ? VAL : std::is_same_v<Tag, ex::set_error_t> ? ERR : STOP;
        if constexpr (((Elsewhere == c) || ...)) return ex::__completion_behavior::__unknown;
        else return ex::__completion_behavior::__inline_completion;
      }
    };
    part(chan c, int v, int id) : s{c, v, ((Elsewhere == c) || ...) ? h::REMOTE : h::INLINE, nullptr, id} {}
    env get_env() const noexcept { return {}; }
    template <class R> auto connect(R r) const { return ex::connect(s, std::move(r)); }
  };
  template <template <class> class T>
  T<tv> aff_kinds_body(int kind, chan c)
  {
    int y = -1;
    on(1, "started");
    try
    {
      auto away = [c](auto&&...) { return h::src{c, 5, h::REMOTE, nullptr, 7}; };
      auto fail = [] { return h::src{ERR, 6, h::INLINE, nullptr, 1} | ex::then([](tv) {}); };
      switch (kind)
      {
      case 0: { tv v = co_await ex::let_value(ex::just(), away); y = v.get(); break; }
      case 1: { tv v = co_await ex::let_error(fail() | ex::then([] { return tv(0); }), away); y = v.get(); break; }
      case 2: { tv v = co_await ex::let_stopped(h::src{STOP, 0, h::INLINE, nullptr, 1}, away); y = v.get(); break; }
      case 3: { tv v = co_await part<ERR>(c, 5, 7); y = v.get(); break; }
      case 4: { tv v = co_await part<STOP>(c, 5, 7); y = v.get(); break; }
      case 5: { tv v = co_await part<VAL>(c, 5, 7); y = v.get(); break; }
      case 6: { tv v = co_await (part<ERR, STOP>(c, 5, 7) | ex::upon_error([](int e) { return tv(e + 100); })); y = v.get(); break; }
      case 7: { tv v = co_await (part<ERR, STOP>(c, 5, 7) | ex::upon_stopped([] { return tv(99); })); y = v.get(); break; }
      case 8: { auto o = co_await ex::stopped_as_optional(part<STOP, ERR>(c, 5, 7)); y = o ? o->get() : 99; break; }
      case 9: { tv v = co_await exec::sequence(ex::just(), part<VAL, ERR, STOP>(c, 5, 7)); y = v.get(); break; }
      case 10: { tv v = co_await ex::when_all(part<ERR>(c, 5, 7), part<ERR>(VAL, 0, 8) | ex::then([](tv) {})); y = v.get(); break; }
      case 11: { tv v = co_await exec::finally(ex::just(tv(5)), away() | ex::then([](tv) {})); y = v.get(); break; }
      case 12: { tv v = co_await ex::let_value(ex::just(), []() noexcept { return ex::schedule(isched{7}) | ex::then([]() noexcept { return tv(5); }); }); y = v.get(); break; }
      default: { tv v = co_await ex::continues_on(part<ERR, STOP, VAL>(c, 5, 7), ex::inline_scheduler{}); y = v.get(); break; }
      }
    }
    catch (int e) { y = e + 100; }
    on(1, "resumed");
    co_return tv(y);
  }
  template <template <class> class T>
  void affinity_kinds()
  {
    chan   c = h::pick_chan();
    int    kind = mc::choose(14, "kind");
    h::rec r;
    here   ctx(1);
    g_alive = 0;
    h::go(aff_kinds_body<T>(kind, c), r, aenv());
    mc::join_all();
    if (kind == 12) expect(r, h::VAL, 5);
    else if (c == h::STOP && (kind == 7 || kind == 8)) expect(r, h::VAL, 99);
    else if (c == h::STOP) expect(r, c, 0);
    else expect(r, h::VAL, c == h::VAL ? 5 : 105);
    if (r.ctx != 1) mc::fail("completed on context %d", r.ctx);
  }
  AFFINE_TASK(affinity_kinds, affinity_kinds, {.preempt = -1})

  // ... also through a nested task, and in the parent
  template <template <class> class T>
  T<tv> aff_leaf(h::src a)
  {
    on(1, "nested task started");
    tv v = co_await std::move(a);
    on(1, "nested task resumed");
    co_return v;
  }
  template <template <class> class T>
  T<tv> aff_outer(h::src a, h::src b)
  {
    int y = 0;
    try { tv v = co_await aff_leaf<T>(std::move(a)); y = v.get(); }
    catch (int e) { y = e + 100; }
    on(1, "parent resumed");
    tv z = co_await (aff_leaf<T>(std::move(b)) | ex::then([](tv v) { return tv(v.get() + 1); }));
    on(1, "parent resumed");
    co_return tv(y * 1000 + z.get());
  }
  template <template <class> class T>
  void affinity_nested()
  {
    chan   c = h::pick_chan();
    auto   m = h::pick_mode(), n = h::pick_mode();
    h::rec r;
    here   ctx(1);
    h::go(aff_outer<T>(h::src{c, 5, m, nullptr, 7}, h::src{h::VAL, 4, n, nullptr, 8}), r, aenv());
    mc::join_all();
    if (c == h::STOP) expect(r, c, 0);
    else expect(r, h::VAL, c == h::VAL ? 5005 : 105005);
    if (r.ctx != 1) mc::fail("completed on context %d", r.ctx);
  }
  AFFINE_TASK(affinity_nested, affinity_nested, {.preempt = -1})

  // sync_wait drives a task on its run loop, whatever threads the awaited senders complete on
  template <template <class> class T>
  T<tv> sw_body(h::src a, std::thread::id me)
  {
    loc l(1);
    MC_CHECK(std::this_thread::get_id() == me);
    tv v = co_await std::move(a);
    MC_CHECK(std::this_thread::get_id() == me);
    co_return tv(v.get() + 1);
  }
  template <template <class> class T>
  void waited()
  {
    chan c = h::pick_chan();
    auto m = h::pick_mode();
    g_alive = 0;
    int got = 0;
    try
    {
      auto o = ex::sync_wait(sw_body<T>(h::src{c, 5, m, nullptr, 7}, std::this_thread::get_id()));
      got = o ? std::get<0>(*o).get() : 50;
    }
    catch (int e) { got = 100 + e; }
    MC_CHECK(got == (c == h::VAL ? 6 : c == h::ERR ? 105 : 50));
    MC_CHECK(g_alive == 0);
    mc::join_all();
  }
  AFFINE_TASK(sync_wait, waited, {.preempt = -1})

  // ---------------------------------------------------------------------------------------------
  // a task of one kind awaits a task of another
  template <template <class> class A, template <class> class B>
  A<tv> mix_body(h::src s)
  {
    loc l(1);
    tv  v = co_await leaf<B>(std::move(s), 0);
    co_return tv(v.get() + 1000);
  }
  template <template <class> class A, template <class> class B>
  void mix1(chan c, h::mode m)
  {
    h::rec r;
    watch<A>(r, c);
    if (c == h::STOP && !std_task<B>) r.zero = nullptr;
    h::go(mix_body<A, B>(h::src{c, 5, m}), r, ienv());
    mc::join_all();
    expect(r, c, c == h::VAL ? 1105 : 5);
    MC_CHECK(order({0, 1}));
  }
  template <template <class> class T>
  void mixed()
  {
    chan c = h::pick_chan();
    auto m = h::pick_mode();
    switch (mc::choose(3, "inner task"))
    {
    case 0: mix1<T, IT>(c, m); break;
    case 1: if constexpr (!std::is_same_v<T<int>, IT<int>>) mix1<T, ET>(c, m); else mc::discard(); break;
    default: mix1<T, SI>(c, m); break;
    }
  }
  EACH_TASK(mixed, mixed, {.preempt = -1})

  // ---------------------------------------------------------------------------------------------
  // exit actions run exactly once, in reverse order, before the awaiter continues
  auto act(h::src x, int n) { return std::move(x) | ex::then([n](tv) { note(n + 1); }); }
  template <template <class> class T>
  T<tv> exit1(h::src s, h::src x, h::src y, int second)
  {
    loc l(1);
    co_await exec::at_coroutine_exit([](h::src x) { note(10); return act(std::move(x), 10); }, std::move(x));
    if (second == 1) co_await exec::at_coroutine_exit([](h::src y) { note(20); return act(std::move(y), 20); }, std::move(y));
    tv v = co_await std::move(s);
    if (second == 2) co_await exec::at_coroutine_exit([](h::src y) { note(20); return act(std::move(y), 20); }, std::move(y));
    co_return tv(v.get() + 100);
  }
  template <template <class> class T>
  T<tv> exit_outer(h::src s, h::src x, h::src y, int second)
  {
    loc l(2);
    int got = -1;
    try { tv v = co_await exit1<T>(std::move(s), std::move(x), std::move(y), second); got = v.get(); }
    catch (int e) { got = e; }
    note(30);
    co_return tv(got);
  }
  template <template <class> class T>
  void exits()
  {
    chan   c = h::pick_chan();
    auto   m = h::pick_mode(), xm = h::pick_mode();
    auto   ym = xm;
    int    second = mc::choose(3, "second action: none, before, after the await");
    int    outer = mc::choose(2, "nested");
    h::rec r;
    h::src s{c, 5, m}, x{h::VAL, 1, xm}, y{h::VAL, 2, ym};
    if (outer) h::go(exit_outer<T>(s, x, y, second), r, ienv());
    else h::go(exit1<T>(s, x, y, second), r, ienv());
    mc::join_all();
    if (c == h::VAL || (outer && c == h::ERR)) expect(r, h::VAL, c == h::VAL ? 105 : 5);
    else expect(r, c, 5);
    // the actions, in reverse order, each once
    bool y_runs = second == 1 || (second == 2 && c == h::VAL);
    std::vector<long> acts, want;
    long at30 = -1;
    for (long i = 0; i < ndead(); ++i)
    {
      if (dead(i) >= 10 && dead(i) < 30) acts.push_back(dead(i));
      if (dead(i) == 30) { MC_CHECK(acts.size() == (y_runs ? 4u : 2u)); at30 = i; }
    }
    if (y_runs) want = {20, 21, 10, 11}; else want = {10, 11};
    if (acts != want) mc::fail("actions: %s", seq().c_str());
    MC_CHECK((at30 >= 0) == (outer && c != h::STOP));
    long ls = 0;
    for (long i = 0; i < ndead(); ++i) ls += dead(i) < 10;
    MC_CHECK(ls == 1 + outer);
  }
  EXEC_TASK(exit_actions, exits, {.preempt = -1})

  // ... and stop the coroutine only after the actions ran, also when they are asynchronous
  template <template <class> class T>
  void exits_before()
  {
    chan   c = h::pick_chan();
    auto   m = h::pick_mode(), xm = h::pick_mode();
    h::rec r;
    int    ran = 0;
    r.need = &ran;
    struct f
    {
      int* ran;
      h::src x;
      auto operator()() { return std::move(x) | ex::then([p = ran](tv) { *p = 1; }); }
    };
    struct b
    {
      static T<tv> body(h::src s, f a)
      {
        co_await exec::at_coroutine_exit(std::move(a));
        co_return co_await std::move(s);
      }
    };
    h::go(b::body(h::src{c, 5, m}, f{&ran, h::src{h::VAL, 0, xm}}), r, ienv());
    mc::join_all();
    MC_CHECK(ran == 1);
    expect(r, c, 5);
  }
  EXEC_TASK(exit_action_before_completion, exits_before, {.preempt = -1})

  // an action of each disposition: exactly the one that fits runs
  template <int>
  void dispositions()
  {
    chan   c = h::pick_chan();
    auto   m = h::pick_mode(), xm = h::pick_mode();
    h::rec r;
    int    ran[3]{};
    struct f
    {
      int* ran;
      h::src x;
      auto operator()() { return std::move(x) | ex::then([p = ran](tv) { ++*p; }); }
    };
    struct b
    {
      static ET<tv> body(h::src s, f x, f y, f z)
      {
        co_await exec::on_coroutine_succeeded(std::move(x));
        co_await exec::on_coroutine_failed(std::move(y));
        co_await exec::on_coroutine_stopped(std::move(z));
        co_return co_await std::move(s);
      }
    };
    h::src x{h::VAL, 0, xm};
    h::go(b::body(h::src{c, 5, m}, f{&ran[0], x}, f{&ran[1], x}, f{&ran[2], x}), r, ienv());
    mc::join_all();
    expect(r, c, 5);
    MC_CHECK(ran[0] == (c == h::VAL) && ran[1] == (c == h::ERR) && ran[2] == (c == h::STOP));
  }
  PART_SCENARIO(0, dispositions, dispositions, {.preempt = -1})

  // a coroutine that moves itself to another scheduler returns to the original one when it ends
  template <int>
  void rescheduled()
  {
    chan   c = h::pick_chan();
    auto   m = h::pick_mode();
    int    twice = mc::choose(2, "twice");
    struct b
    {
      static ET<tv> inner(h::src s, int twice)
      {
        on(1, "started");
        co_await exec::reschedule_coroutine_on(isched{2});
        on(2, "moved");
        if (twice)
        {
          co_await exec::reschedule_coroutine_on(isched{3});
          on(3, "moved again");
        }
        tv v = co_await std::move(s);
        on(twice ? 3 : 2, "resumed");
        co_return v;
      }
      static ET<tv> outer(h::src s, int twice)
      {
        int got = 0;
        try { tv v = co_await inner(std::move(s), twice); got = v.get(); }
        catch (int e) { got = 100 + e; }
        on(1, "parent resumed");
        co_return tv(got);
      }
    };
    h::rec r;
    here   ctx(1);
    h::go(b::outer(h::src{c, 5, m, nullptr, 7}, twice), r, aenv());
    mc::join_all();
    if (c == h::STOP) expect(r, c, 0);
    else expect(r, h::VAL, c == h::VAL ? 5 : 105);
    if (r.ctx != 1) mc::fail("completed on context %d", r.ctx);
  }
  PART_SCENARIO(3, reschedule_coroutine_on, rescheduled, {.preempt = -1})

  // ... and if the transition fails, the coroutine sees that failure where it asked for the transition, and goes on where it was
  struct fsched
  {
    int  id = 1;
    int  how = 0;   // 1: schedule completes with an error, 2: connect throws
    struct snd
    {
      using sender_concept = ex::sender_t;
      using completion_signatures = ex::completion_signatures<ex::set_value_t(), ex::set_error_t(std::exception_ptr)>;
      int id, how;
      template <class R>
      struct op
      {
        R r; int id, how;
        op(R rr, int i, int h) : r(std::move(rr)), id(i), how(h) {}
        op(op&&) = delete;
        void start() & noexcept
        {
          if (how == 1) ex::set_error(std::move(r), std::make_exception_ptr(h::boom{id}));
          else std::thread([this] { h::ctx_id = id; ex::set_value(std::move(r)); }).detach();
        }
      };
      template <class R> auto connect(R r) const -> op<R>
      {
        if (how == 2) throw h::boom{id};
        return op<R>(std::move(r), id, how);
      }
      struct env
      {
        int id, how;
        template <class... As> fsched query(ex::get_completion_scheduler_t<ex::set_value_t>, As const &...) const noexcept { return fsched{id, how}; }
      };
      env get_env() const noexcept { return env{id, how}; }
    };
    snd schedule() const noexcept { return snd{id, how}; }
    bool operator==(fsched const &) const noexcept = default;
    using scheduler_concept = ex::scheduler_t;
  };
  static_assert(ex::scheduler<fsched>);
  template <int>
  void rescheduled_fails()
  {
    int how = 1 + int(mc::choose(2, "failure"));
    int moved = int(mc::choose(2, "moved before"));
    struct b
    {
      static ET<tv> inner(int how, int moved)
      {
        int got = 0;
        if (moved)
        {
          co_await exec::reschedule_coroutine_on(isched{2});
          on(2, "moved");
        }
        try { co_await exec::reschedule_coroutine_on(fsched{3, how}); got = 1; }
        catch (h::boom const & e) { got = 10 + e.tag; }
        on(moved ? 2 : 1, "after the failed transition");
        tv v = co_await h::src{h::VAL, 5, h::REMOTE};   // completes elsewhere: the coroutine is still affine to where it was
        on(moved ? 2 : 1, "after the next sender");
        co_return tv(got + 100 * v.get());
      }
      static ET<tv> outer(int how, int moved)
      {
        tv v = co_await inner(how, moved);
        on(1, "parent resumed");
        co_return v;
      }
    };
    h::rec r;
    here   ctx(1);
    h::go(b::outer(how, moved), r, aenv());
    mc::join_all();
    expect(r, h::VAL, 513);
    if (r.ctx != 1) mc::fail("completed on context %d", r.ctx);
  }
  PART_SCENARIO(3, reschedule_fails, rescheduled_fails, {.preempt = -1})

  // ---------------------------------------------------------------------------------------------
  // the errors of std::execution::task
  struct typed_env
  {
    using start_scheduler_type = ex::inline_scheduler;
    using error_types = ex::completion_signatures<ex::set_error_t(int), ex::set_error_t(h::boom), ex::set_error_t(std::exception_ptr)>;
  };
  template <class T> using TT = ex::task<T, typed_env>;
  template <int>
  void typed()
  {
    int how = mc::choose(9, "how it ends");
    struct b
    {
      static TT<tv> body(int how, h::src s)
      {
        loc l(1);
        if (how > 5) co_await std::move(s);
        switch (how)
        {
        case 0: co_yield ex::with_error{int(3)};
        case 6: co_yield ex::with_error{int(3)};
        case 1: co_yield ex::with_error{h::boom{4}};
        case 2: co_return ex::with_error{int(3)};
        case 3: throw int(3);
        case 4: co_yield ex::with_stopped{};
        case 7: co_yield ex::with_stopped{};
        case 5: co_return ex::with_stopped{};
        default: co_return tv(6);
        }
      }
      static TT<tv> outer(int how, h::src s)
      {
        loc l(2);
        try { co_return co_await body(how, std::move(s)); }
        catch (int e) { co_return tv(100 + e); }
      }
    };
    auto   m = how > 5 ? h::pick_mode() : h::INLINE;
    int    outer = mc::choose(2, "awaited by another task");
    h::rec r;
    g_alive = 0;
    r.zero = &g_alive;
    h::src s{h::VAL, 1, m};
    if (outer) h::go(b::outer(how, s), r, ienv());
    else h::go(b::body(how, s), r, ienv());
    mc::join_all();
    if (how == 4 || how == 5 || how == 7) MC_CHECK(r.is(h::STOP));
    else if (how == 8) MC_CHECK(r.is(h::VAL, 6));
    else if (how == 1) MC_CHECK(r.is(h::ERR, 1004));
    else MC_CHECK(outer ? r.is(h::VAL, 103) : r.is(h::ERR, 3));
    if (outer) MC_CHECK(order({1, 2})); else MC_CHECK(order({1}));
    mc::outcome("%s", r.str().c_str());
  }
  PART_SCENARIO(2, task_typed_errors, typed, {.preempt = -1})

  // the frame of a task comes from the given allocator and goes back to it
  struct arena { long out = 0, n = 0; };
  template <class T>
  struct al
  {
    using value_type = T;
    arena* a;
    explicit al(arena* x) noexcept : a(x) {}
    template <class U> al(al<U> const & o) noexcept : a(o.a) {}
    T* allocate(std::size_t n) { a->out += long(n * sizeof(T)); ++a->n; return static_cast<T*>(::operator new(n * sizeof(T))); }
    void deallocate(T* p, std::size_t n) noexcept { a->out -= long(n * sizeof(T)); ::operator delete(p); }
    template <class U> bool operator==(al<U> const & o) const noexcept { return a == o.a; }
  };
  template <int>
  void allocated()
  {
    chan   c = h::pick_chan();
    auto   m = h::pick_mode();
    int    drop = mc::choose(2, "dropped");
    arena  ar;
    struct b
    {
      static SI<tv> body(std::allocator_arg_t, al<char>, h::src s)
      {
        loc l(1);
        tv  v = co_await std::move(s);
        co_return v;
      }
    };
    {
      h::rec r;
      auto   t = b::body(std::allocator_arg, al<char>(&ar), h::src{c, 5, m});
      MC_CHECK(ar.n == 1);
      if (!drop)
      {
        h::go(std::move(t), r, ienv());
        mc::join_all();
        expect(r, c, 5);
      }
    }
    MC_CHECK(ar.out == 0 && ar.n == 1);
  }
  PART_SCENARIO(3, task_allocator, allocated, {.preempt = -1})

  // ---------------------------------------------------------------------------------------------
  // an awaitable used as a sender
  enum how_t { READY, SUSPEND, NO_SUSPEND, THROW_READY, THROW_SUSPEND, THROW_RESUME };
  struct wait_state
  {
    how_t h;
    bool  remote;
    int   resumed = 0;
  };
  template <class Ret>
  struct aw
  {
    wait_state* w;
    int*        cell;
    explicit aw(wait_state* x) : w(x), cell(new int(1)) {}
    aw(aw&& o) noexcept : w(o.w), cell(std::exchange(o.cell, nullptr)) {}
    ~aw() { delete cell; }
    bool await_ready()
    {
      if (w->h == THROW_READY) throw int(1);
      return w->h == READY;
    }
    template <class P>
    Ret await_suspend(std::coroutine_handle<P> co)
    {
      if (w->h == THROW_SUSPEND) throw int(2);
      constexpr bool by_handle = std::is_convertible_v<Ret, std::coroutine_handle<>> && !std::is_same_v<Ret, bool>;
      if (std::is_same_v<Ret, bool> && w->h == NO_SUSPEND)
      {
        if constexpr (std::is_same_v<Ret, bool>) return false;
      }
      else if (w->remote)
        std::thread([co] { co.resume(); }).detach();
      else if constexpr (by_handle) return co;
      else co.resume();
      if constexpr (by_handle) return std::noop_coroutine();
      else if constexpr (std::is_same_v<Ret, bool>) return true;
    }
    tv await_resume()
    {
      ++w->resumed;
      MC_CHECK(*cell == 1);
      if (w->h == THROW_RESUME) throw int(3);
      return tv(7);
    }
  };
  struct indirect  // operator co_await
  {
    aw<void> a;
    aw<void> operator co_await() && { return std::move(a); }
  };
  struct stopper  // completes with stopped
  {
    bool remote;
    bool await_ready() noexcept { return false; }
    template <class P>
    std::coroutine_handle<> await_suspend(std::coroutine_handle<P> co) noexcept
    {
      if (!remote) return co.promise().unhandled_stopped();
      std::thread([co] { co.promise().unhandled_stopped().resume(); }).detach();
      return std::noop_coroutine();
    }
    tv await_resume() noexcept { return tv(1); }
  };
  template <class A>
  void use_awaitable(wait_state& w, A a, int via)
  {
    h::rec r;
    if (via == 0) h::go(std::move(a), r, ienv());
    else if (via == 1) h::go(std::move(a) | ex::then([](tv v) { return v; }), r, ienv());
    else
    {
      struct b { static SI<tv> body(A a) { co_return co_await std::move(a); } };
      h::go(b::body(std::move(a)), r, ienv());
    }
    mc::join_all();
    if (w.h >= THROW_READY) MC_CHECK(r.is(h::ERR, w.h - THROW_READY + 1));
    else MC_CHECK(r.is(h::VAL, 7));
    MC_CHECK(w.resumed == (w.h != THROW_READY && w.h != THROW_SUSPEND));
    mc::outcome("%s", r.str().c_str());
  }
  template <int>
  void awaitables()
  {
    wait_state w{how_t(mc::choose(6, "awaiter")), mc::choose(2, "remote") == 1};
    int        via = mc::choose(3, "connected, adapted, awaited");
    int        ret = mc::choose(4, "await_suspend returns void, bool, handle; operator co_await");
    if (w.h == NO_SUSPEND && ret != 1) mc::discard();
    switch (ret)
    {
    case 0: use_awaitable(w, aw<void>(&w), via); break;
    case 1: use_awaitable(w, aw<bool>(&w), via); break;
    case 2: use_awaitable(w, aw<std::coroutine_handle<>>(&w), via); break;
    default: use_awaitable(w, indirect{aw<void>(&w)}, via); break;
    }
  }
  PART_SCENARIO(0, awaitable_as_sender, awaitables, {.preempt = -1})
  template <int>
  void stopped_awaitable()
  {
    bool   remote = mc::choose(2, "remote");
    int    via = mc::choose(3, "connected, adapted, awaited");
    h::rec r;
    if (via == 0) h::go(stopper{remote}, r, ienv());
    else if (via == 1) h::go(stopper{remote} | ex::then([](tv v) { return v; }), r, ienv());
    else
    {
      struct b { static SI<tv> body(bool remote) { loc l(1); co_return co_await stopper{remote}; } };
      h::go(b::body(remote), r, ienv());
    }
    mc::join_all();
    MC_CHECK(r.is(h::STOP));
  }
  PART_SCENARIO(3, stopped_awaitable, stopped_awaitable, {.preempt = -1})
}
