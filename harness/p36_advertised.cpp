// P36: what a sender advertises about its completions (behaviour, completion scheduler) is what happens.
// PARTS: 8
#define H_FAULTS 1
#ifndef STRICT
#define STRICT 0
#endif
#include "catalogue.hpp"
#include <exec/just_from.hpp>
#include <exec/any_sender_of.hpp>
#include <exec/single_thread_context.hpp>
#include <exec/static_thread_pool.hpp>
#include <exec/task.hpp>
#include <exec/trampoline_scheduler.hpp>
#include <stdexec/coroutine.hpp>
#include <exec/inline_scheduler.hpp>
#include <deque>
#include <map>
#include <mutex>
using h::tv;

namespace
{
  // ---- agents: ctx_id says on which agent the code runs; work posted to an agent is run from the main loop -----
  struct work { virtual void go() noexcept = 0; };
  std::map<int, std::deque<work*>>* queues;
  std::mutex* mtx;
  void post(int agent, work* w) { h::quiet q; std::lock_guard lk(*mtx); (*queues)[agent].push_back(w); }

  using CB = ex::__completion_behavior;
  enum beh { I, F, A, U };  // inline, asynchronous on the starting agent, asynchronous on another, any of these
  template <beh B> constexpr auto cb()
  {
    if constexpr (B == I) return CB::__inline_completion;
    else if constexpr (B == F) return CB::__asynchronous_affine;
    else if constexpr (B == A) return CB::__asynchronous;
    else return CB::__unknown;
  }

  // a scheduler whose agent is `id`
  template <beh B>
  struct asch
  {
    using scheduler_concept = ex::scheduler_t;
    int id = 1;
    struct env
    {
      int id;
      template <class T, class... As>
      asch query(ex::get_completion_scheduler_t<T>, As const &...) const noexcept { return asch{id}; }
      template <class T>
      auto query(ex::__get_completion_behavior_t<T>) const noexcept { return cb<B>(); }
    };
    struct snd
    {
      using sender_concept = ex::sender_t;
      using completion_signatures = ex::completion_signatures<ex::set_value_t()>;
      int id;
      template <class R>
      struct op : work
      {
        R r; int id;
        op(R rr, int i) : r(std::move(rr)), id(i) {}
        op(op&&) = delete;
        void start() & noexcept
        {
          if (B == U && h::ctx_id == id && mc::choose(2, "sched inline")) return ex::set_value(std::move(r));
          post(id, this);
        }
        void go() noexcept override { ex::set_value(std::move(r)); }
      };
      template <class R> auto connect(R r) const -> op<R> { return op<R>(std::move(r), id); }
      env get_env() const noexcept { return env{id}; }
    };
    snd schedule() const noexcept { return snd{id}; }
    bool operator==(asch const &) const noexcept = default;
    template <class T, class... As> ex::default_domain query(ex::get_completion_domain_t<T>, As const &...) const noexcept { return {}; }
  };
  template <beh B> constexpr int agent_of(asch<B> s) { return s.id; }
  inline int agent_of(h::thread_sched s) { return s.id; }
  inline int agent_of(ex::inline_scheduler) { return -1; }

  // a sender with the given behaviour on each channel
  template <beh V, beh E, beh S, bool Sch = false>
  struct leaf
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures<ex::set_value_t(tv), ex::set_error_t(int), ex::set_stopped_t()>;
    h::chan c = h::VAL;
    int agent = 7;
    struct env
    {
      int agent;
      auto query(ex::__get_completion_behavior_t<ex::set_value_t>) const noexcept { return cb<V>(); }
      auto query(ex::__get_completion_behavior_t<ex::set_error_t>) const noexcept { return cb<E>(); }
      auto query(ex::__get_completion_behavior_t<ex::set_stopped_t>) const noexcept { return cb<S>(); }
      template <class T, class... As> requires Sch
      asch<A> query(ex::get_completion_scheduler_t<T>, As const &...) const noexcept { return {agent}; }
    };
    template <class R>
    struct op : work
    {
      R r; h::chan c; int agent;
      op(R rr, leaf const & l) : r(std::move(rr)), c(l.c), agent(l.agent) {}
      op(op&&) = delete;
      void start() & noexcept
      {
        beh b = c == h::VAL ? V : c == h::ERR ? E : S;
        if (b == U) b = beh(mc::choose(3, "how"));
        if (b == I) return go();
        post(b == F ? h::ctx_id : agent, this);
      }
      void go() noexcept override
      {
        switch (c)
        {
        case h::VAL: { std::optional<tv> v; { h::quiet q; v.emplace(7); } ex::set_value(std::move(r), std::move(*v)); break; }
        case h::ERR: ex::set_error(std::move(r), 8); break;
        default: ex::set_stopped(std::move(r));
        }
      }
    };
    template <class R> auto connect(R r) const -> op<R> { return op<R>(std::move(r), *this); }
    env get_env() const noexcept { return env{agent}; }
  };

  struct env_
  {
    ex::inplace_stop_token tok;
    ex::inplace_stop_token query(ex::get_stop_token_t) const noexcept { return tok; }
    asch<A> query(ex::get_start_scheduler_t) const noexcept { return {0}; }
    asch<A> query(ex::get_scheduler_t) const noexcept { return {0}; }
  };

  struct claim { bool sends; CB::__behavior b[2]; int agent[2]; };  // with and without the environment
  struct monitor
  {
    char const * a; char const * b;
    claim cl[3];
    bool  in_start = false, done = false;
    int   ch = 0;
    void hit(int c)
    {
      static char const * const names[] = {"value", "error", "stopped"};
      if (done) mc::fail("%s(%s): second completion", a, b);
      done = true;
      ch = c;
      bool inl = mc::self() == 0 && in_start;
      for (int k = 0; k < 2; ++k)
      {
        auto bits = static_cast<unsigned>(cl[c].b[k]);
        char const * how = k ? "without" : "with";
        // what is said about values; and what is said about every way in which the sender can complete
        unsigned any = 0;
        for (auto& x : cl) any |= x.sends ? static_cast<unsigned>(x.b[k]) : 0;
        if (c == 0 || STRICT) any &= bits;
        if (!(any & 3) && !inl) mc::fail("%s(%s): %s was advertised (%s environment) as inline, but it came after start() had returned, or on another agent", a, b, names[c], how);
        if (!(any & 4) && inl) mc::fail("%s(%s): %s was advertised (%s environment) as asynchronous, but it came inside start()", a, b, names[c], how);
        if (!(any & 1) && h::ctx_id != 0) mc::fail("%s(%s): %s was advertised (%s environment) to come where the operation was started, but it came on agent %d", a, b, names[c], how, h::ctx_id);
        if (c && !STRICT) continue;
        if (cl[c].agent[k] >= 0 && h::ctx_id != cl[c].agent[k])
          mc::fail("%s(%s): the scheduler advertised (%s environment) for %s is that of agent %d, but it came on agent %d", a, b, how, names[c], cl[c].agent[k], h::ctx_id);
      }
    }
  };
  struct rcvr
  {
    using receiver_concept = ex::receiver_t;
    monitor* m;
    env_     e;
    void set_value(auto&&...) noexcept { m->hit(0); }
    void set_error(auto&&) noexcept { m->hit(1); }
    void set_stopped() noexcept { m->hit(2); }
    env_ get_env() const noexcept { return e; }
  };
  template <class T, class S>
  claim claim_of(S const & s, env_ const & e)
  {
    claim c{ex::__sends<T, S, env_>, {ex::__completion_behavior_of_v<T, ex::env_of_t<S>, env_>, ex::__completion_behavior_of_v<T, ex::env_of_t<S>>}, {-1, -1}};
    if constexpr (ex::__has_completion_scheduler_for<T, S, env_>) c.agent[0] = agent_of(ex::get_completion_scheduler<T>(ex::get_env(s), e));
    if constexpr (ex::__sends<T, S, env_> && requires { ex::get_completion_scheduler<T>(ex::get_env(s)); }) c.agent[1] = agent_of(ex::get_completion_scheduler<T>(ex::get_env(s)));
    return c;
  }

  template <class Mk>
  void run(char const * a, char const * b, Mk mk)
  {
    std::map<int, std::deque<work*>> qs;
    std::mutex mt;
    queues = &qs;
    mtx = &mt;
    h::ctx_id = 0;
    {
      ex::inplace_stop_source src;
      monitor m{a, b, {}};
      auto s = mk();
      using S = decltype(s);
      env_ e{src.get_token()};
      m.cl[0] = claim_of<ex::set_value_t>(s, e);
      m.cl[1] = claim_of<ex::set_error_t>(s, e);
      m.cl[2] = claim_of<ex::set_stopped_t>(s, e);
      {
        auto op = ex::connect(std::move(s), rcvr{&m, e});
        h::throw_at = mc::choose(4, "throw at");
        if (mc::choose(2, "stop first")) src.request_stop();
        m.in_start = true;
        ex::start(op);
        m.in_start = false;
        h::ctx_id = 0;
        for (;;)
        {
          int ready[8], n = 0;
          {
            std::lock_guard lk(mt);
            for (auto& [id, q] : qs)
              if (!q.empty()) ready[n++] = id;
          }
          if (!n)
          {
            mc::join_all();
            std::lock_guard lk(mt);
            for (auto& [id, q] : qs)
              if (!q.empty()) n = 1;
            if (n) continue;
            break;
          }
          int id = ready[n > 1 ? mc::choose(n, "agent") : 0];
          work* w;
          {
            std::lock_guard lk(mt);
            w = qs[id].front();
            qs[id].pop_front();
          }
          h::ctx_id = id;
          w->go();
          h::ctx_id = 0;
        }
        if (!m.done) mc::fail("%s(%s): never completed", a, b);
        mc::outcome("%s %d", a, m.ch);
      }
      h::throw_at = 0;
      (void) sizeof(S);
    }
  }

  // ---- leaves ------------------------------------------------------------------------------------------------
#define LEAVES(X) X(0, (I, I, I)) X(1, (F, F, F)) X(2, (A, A, A)) X(3, (U, U, U)) X(4, (I, A, A)) X(5, (A, I, I)) X(6, (I, F, A)) X(7, (A, A, A, true))
  template <int> struct leaf_of;
#define UNP(...) __VA_ARGS__
#define X(N, L) template <> struct leaf_of<N> { using type = leaf<UNP L>; static constexpr char const * name = #L; };
  LEAVES(X)
#undef X
  constexpr int nleaves = 8;
  h::chan pick() { return h::pick_chan(); }

  // ---- every entry of the catalogue over every leaf --------------------------------------------------------------
  template <class F> void with_leaf(F f)
  {
    int n = mc::choose(nleaves, "leaf");
    [&]<int... J>(std::integer_sequence<int, J...>) { ((J == n ? f(std::integral_constant<int, J>{}) : void()), ...); }(std::make_integer_sequence<int, nleaves>{});
  }
  template <int K> void row()
  {
    using Ad = cat::ad<K>;
    with_leaf([]<int J>(std::integral_constant<int, J>) {
      using L = typename leaf_of<J>::type;
      h::chan c = pick();
      typename Ad::state st;
      run(Ad::name, leaf_of<J>::name, [&] { return Ad::wrap(L{c}, st); });
    });
  }
  template <int K> struct reg
  {
    mc::registrar r{"P36", (new std::string(std::string("adaptor_") + cat::ad<K>::name))->c_str(), +[] { row<K>(); }, {.preempt = 0}, {.preempt = 1}};
  };
  template <int K> constexpr bool mine = K % MC_PARTS == MC_PART;
  template <int... K> int regs(std::integer_sequence<int, K...>)
  {
    ([] { if constexpr (mine<K>) static reg<K> r; }(), ...);
    return 0;
  }
  int all = regs(std::make_integer_sequence<int, cat::count>{});

  // ---- adaptors of two senders over every pair -----------------------------------------------------------------
  constexpr int base2 = __COUNTER__ + 1;
  template <int> struct two;
#define TWO(NAME, ...)                                                                                  \
  template <> struct two<__COUNTER__ - base2>                                                           \
  {                                                                                                     \
    static constexpr char const * name = #NAME;                                                         \
    template <class X, class Y> static auto wrap(X x, Y y) { return __VA_ARGS__; }                      \
  };
  TWO(when_all, ex::when_all(x, y))
  TWO(when_any, exec::when_any(x, y))
  TWO(let_value, ex::let_value(x, [y](tv&) { h::maybe(); return y; }))
  TWO(let_value_noexcept, ex::let_value(x | ex::then([](tv) noexcept {}), [y]() noexcept { return y; }))
  TWO(let_error, ex::let_error(x, [y](auto&&) { h::maybe(); return y; }))
  TWO(let_stopped, ex::let_stopped(x, [y] { h::maybe(); return y; }))
  TWO(sequence, exec::sequence(x | ex::then([](tv) noexcept {}), y))
  TWO(finally, exec::finally(x, y | ex::then([](tv) noexcept {})))
  TWO(variant_1, exec::variant_sender<X, Y>(x))
  TWO(variant_2, exec::variant_sender<X, Y>(y))
  constexpr int count2 = __COUNTER__ - base2;
  template <int K> void row2()
  {
    with_leaf([]<int J>(std::integral_constant<int, J>) {
      h::chan c = pick();
      with_leaf([&]<int N>(std::integral_constant<int, N>) {
        using X = typename leaf_of<J>::type;
        using Y = typename leaf_of<N>::type;
        if constexpr (!(K >= 8 && std::is_same_v<X, Y>))
        {
          h::chan d = pick();
          static std::string nm = std::string(leaf_of<J>::name) + " " + leaf_of<N>::name;
          run(two<K>::name, nm.c_str(), [&] { return two<K>::wrap(X{c, 7}, Y{d, 9}); });
        }
      });
    });
  }
  template <int K> struct reg2
  {
    mc::registrar r{"P36", (new std::string(std::string("pair_") + two<K>::name))->c_str(), +[] { row2<K>(); }, {.preempt = 0}};
  };
  template <int... K> int regs2(std::integer_sequence<int, K...>)
  {
    ([] { if constexpr (mine<K>) static reg2<K> r; }(), ...);
    return 0;
  }
  int all2 = regs2(std::make_integer_sequence<int, count2>{});

  // ---- adaptors of a sender and a scheduler ----------------------------------------------------------------------
  constexpr int base3 = __COUNTER__ + 1;
  template <int> struct sch;
#define SCH(NAME, ...)                                                                                  \
  template <> struct sch<__COUNTER__ - base3>                                                           \
  {                                                                                                     \
    static constexpr char const * name = #NAME;                                                         \
    template <class X, class T> static auto wrap(X x, T t) { return __VA_ARGS__; }                      \
  };
  SCH(starts_on, ex::starts_on(t, x))
  SCH(continues_on, ex::continues_on(x, t))
  SCH(on, ex::on(t, x))
  SCH(on_closure, ex::on(x, t, ex::then([](tv y) { h::maybe(); return y; })))
  SCH(schedule, ((void) x, ex::schedule(t)))
  SCH(starts_on_then_continues, ex::continues_on(ex::starts_on(t, x), asch<A>{0}))
  SCH(transfer_just_like, ex::starts_on(t, ex::just(tv(1))))
  SCH(let_schedule, ex::let_value(ex::schedule(t), [x] { h::maybe(); return x; }))
  SCH(write_env_sched, ex::affine(ex::continues_on(x, t)))
  constexpr int count3 = __COUNTER__ - base3;
  template <int K> void row3()
  {
    with_leaf([]<int J>(std::integral_constant<int, J>) {
      using X = typename leaf_of<J>::type;
      h::chan c = pick();
      auto go = [&](auto t, char const * b) {
        if constexpr (K != 3 || J == 0 || J == 4 || J == 7)  // (this form of on needs the completion scheduler of its sender)
        run(sch<K>::name, b, [&] { return sch<K>::wrap(X{c, 7}, t); });
      };
      switch (mc::choose(5, "scheduler"))
      {
      case 0: go(asch<A>{3}, leaf_of<J>::name); break;
      case 1: go(asch<U>{3}, leaf_of<J>::name); break;
      case 2: go(asch<U>{0}, leaf_of<J>::name); break;
      case 3: go(ex::inline_scheduler{}, leaf_of<J>::name); break;
      case 4: go(asch<A>{0}, leaf_of<J>::name); break;
      }
    });
  }
  template <int K> struct reg3
  {
    mc::registrar r{"P36", (new std::string(std::string("scheduler_") + sch<K>::name))->c_str(), +[] { row3<K>(); }, {.preempt = 0}};
  };
  template <int... K> int regs3(std::integer_sequence<int, K...>)
  {
    ([] { if constexpr (mine<K>) static reg3<K> r; }(), ...);
    return 0;
  }
  int all3 = regs3(std::make_integer_sequence<int, count3>{});

  // ---- the schedulers of the library themselves: started from inside and from outside of their context -----------
  struct own_state
  {
    unsigned b[3];
    int  starter = -1, at = -1, ch = 0;
    bool in_start = false, inl = false, done = false;
    h::gate g{2};  // started; completed
  };
  struct own_rcvr
  {
    using receiver_concept = ex::receiver_t;
    own_state* m;
    ex::inplace_stop_token tok;
    void hit(int c) noexcept
    {
      if (m->done) mc::fail("second completion");
      m->done = true;
      m->ch = c;
      m->at = mc::self();
      m->inl = m->at == m->starter && m->in_start;
      m->g.done();
    }
    void set_value(auto&&...) noexcept { hit(0); }
    void set_error(auto&&) noexcept { hit(1); }
    void set_stopped() noexcept { hit(2); }
    auto get_env() const noexcept { return ex::prop{ex::get_stop_token, tok}; }
  };
  template <class Sch>
  void own(Sch sch, char const * name)
  {
    ex::inplace_stop_source src;
    own_state m;
    auto s = ex::schedule(sch);
    using S = decltype(s);
    using E = ex::env_of_t<own_rcvr>;
    m.b[0] = static_cast<unsigned>(CB::__behavior(ex::__completion_behavior_of_v<ex::set_value_t, ex::env_of_t<S>, E>));
    m.b[1] = static_cast<unsigned>(CB::__behavior(ex::__completion_behavior_of_v<ex::set_error_t, ex::env_of_t<S>, E>));
    m.b[2] = static_cast<unsigned>(CB::__behavior(ex::__completion_behavior_of_v<ex::set_stopped_t, ex::env_of_t<S>, E>));
    if constexpr (requires { ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(s)) == sch; })
      if (!(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(s)) == sch)) mc::fail("%s: the sender of schedule() names another scheduler than its own", name);
    auto op = ex::connect(std::move(s), own_rcvr{&m, src.get_token()});
    if (mc::choose(2, "stop first")) src.request_stop();
    auto go = [&]() noexcept {
      m.starter = mc::self();
      m.in_start = true;
      ex::start(op);
      m.in_start = false;
      m.g.done();
    };
    h::rec r;
    if (mc::choose(2, "started from inside")) h::go(ex::schedule(sch) | ex::then(go), r);
    else go();
    m.g.wait();
    if (!m.done) mc::fail("%s: never completed", name);
    unsigned any = m.b[m.ch];
    if (!(any & 3) && !m.inl) mc::fail("%s: channel %d was advertised as inline, but it came after start() had returned or on another thread", name, m.ch);
    if (!(any & 4) && m.inl) mc::fail("%s: channel %d was advertised as asynchronous, but it came inside start()", name, m.ch);
    if (!(any & 1) && m.at != m.starter) mc::fail("%s: channel %d was advertised to come where the operation was started, but it came on another thread", name, m.ch);
    mc::outcome("%d", m.ch);
  }
  template <class F> void on_loop(F f)  // f(scheduler of a run_loop driven by another thread)
  {
    ex::run_loop loop;
    std::thread th([&] { loop.run(); });
    f(loop.get_scheduler());
    loop.finish();
    th.join();
  }
  using any_sch = exec::any_scheduler<exec::any_sender<exec::any_receiver<ex::completion_signatures<ex::set_value_t(), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>, exec::queries<ex::inplace_stop_token(ex::get_stop_token_t) noexcept>>>>;
  template <int K> void own_row()
  {
    if constexpr (K == 0) own(ex::inline_scheduler{}, "inline_scheduler");
    else if constexpr (K == 1) own(exec::trampoline_scheduler{mc::choose(2, "depth") ? 16u : 1u}, "trampoline_scheduler");
    else if constexpr (K == 2) on_loop([](auto sch) { own(sch, "run_loop"); });
    else if constexpr (K == 3)
    {
      exec::static_thread_pool pool(1, {2, 2}, exec::no_numa_policy{});
      own(pool.get_scheduler(), "static_thread_pool");
    }
    else if constexpr (K == 4) on_loop([](auto sch) { own(ex::task_scheduler(sch), "task_scheduler(run_loop)"); });
    else if constexpr (K == 5) own(ex::task_scheduler(ex::inline_scheduler{}), "task_scheduler(inline_scheduler)");
    else if constexpr (K == 6)
    {
      exec::single_thread_context ctx;
      own(ctx.get_scheduler(), "single_thread_context");
    }
    else if constexpr (K == 7) on_loop([](auto sch) { own(any_sch(sch), "any_scheduler(run_loop)"); });
  }
#define OWN(K, N) std::conditional_t<K % MC_PARTS == MC_PART, mc::registrar, decltype(nullptr)> own_reg_##N = own_mk<K>(#N);
  template <int K> auto own_mk(char const * n)
  {
    if constexpr (K % MC_PARTS == MC_PART) return mc::registrar{"P36", (new std::string(std::string("own_") + n))->c_str(), +[] { own_row<K>(); }, {.preempt = 2}, {.preempt = -1}};
    else return nullptr;
  }
  OWN(0, inline_scheduler)
  OWN(1, trampoline_scheduler)
  OWN(2, run_loop)
  OWN(3, static_thread_pool)
  OWN(4, task_scheduler_loop)
  OWN(5, task_scheduler_inline)
  OWN(6, single_thread_context)
  OWN(7, any_scheduler)
}  // namespace
