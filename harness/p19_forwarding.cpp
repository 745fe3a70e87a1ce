// P19: parallel_scheduler and task_scheduler forward faithfully.
// PARTS: 3
#include "common.hpp"
#include <exec/static_thread_pool.hpp>
#include <stdexec/__detail/__parallel_scheduler.hpp>
#include <stdexec/__detail/__parallel_scheduler_default_impl.hpp>
#include <stdexec/__detail/__task_scheduler.hpp>
using h::chan;
using h::tv;
namespace psr = ex::parallel_scheduler_replacement;
namespace dfl = ex::__parallel_scheduler_default_impl;

using backend_ptr = std::shared_ptr<psr::parallel_scheduler_backend>;
using instance = dfl::__instance_data<psr::parallel_scheduler_backend, dfl::__parallel_scheduler_backend_impl>;
static backend_ptr the_backend;   // what get_parallel_scheduler uses, if there is one;
static instance*   the_instance;  // otherwise the default machinery
namespace STDEXEC::parallel_scheduler_replacement
{
  auto query_parallel_scheduler_backend() -> std::shared_ptr<parallel_scheduler_backend>
  {
    if (the_backend) return the_backend;
    return the_instance->__get_current_instance();
  }
}

namespace
{
  template <class F>
  struct ocb : ex::inplace_stop_callback<F>
  {
    template <class T, class G> ocb(T t, G&& g) noexcept : ex::inplace_stop_callback<F>(t.t, static_cast<G&&>(g)) {}
  };
  struct otok  // a stop token of another type
  {
    ex::inplace_stop_token t;
    template <class F> using callback_type = ocb<F>;
    bool stop_requested() const noexcept { return t.stop_requested(); }
    bool stop_possible() const noexcept { return t.stop_possible(); }
    bool operator==(otok const &) const noexcept = default;
  };
  template <class Tok>
  struct tenv
  {
    Tok t;
    Tok query(ex::get_stop_token_t) const noexcept { return t; }
  };
  using env0 = tenv<ex::never_stop_token>;
  using env1 = tenv<ex::inplace_stop_token>;
  using env2 = tenv<otok>;
  template <class Env> Env make_env(ex::inplace_stop_source& s)
  {
    if constexpr (std::same_as<Env, env0>) return {};
    else if constexpr (std::same_as<Env, env1>) return {s.get_token()};
    else return {otok{s.get_token()}};
  }

  // An infallible scheduler; every operation runs on a thread of its own. It reports stopped when a stop is requested
  // before it ran; when never is set it waits for the request.
  struct tsched
  {
    int  id = 1;
    bool never = false;
    struct snd
    {
      using sender_concept = ex::sender_t;
      template <class, class Env>
      static consteval auto get_completion_signatures()
      {
        if constexpr (ex::unstoppable_token<ex::stop_token_of_t<Env>>) return ex::completion_signatures<ex::set_value_t()>{};
        else return ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>{};
      }
      int  id;
      bool never;
      template <class R>
      struct op
      {
        using tok = ex::stop_token_of_t<ex::env_of_t<R>>;
        R    r;
        int  id;
        bool never;
        op(R rr, int i, bool n) : r(std::move(rr)), id(i), never(n) {}
        op(op&&) = delete;
        struct wake { std::atomic<int>* a; void operator()() const noexcept { a->store(1); a->notify_all(); } };
        void run() noexcept
        {
          h::ctx_id = id;
          tok t = ex::get_stop_token(ex::get_env(r));
          if (never)
          {
            std::atomic<int> a{0};
            ex::stop_callback_for_t<tok, wake> cb(t, wake{&a});
            while (a.load() == 0) a.wait(0);
          }
          if constexpr (!ex::unstoppable_token<tok>)
            if (t.stop_requested()) return ex::set_stopped(std::move(r));
          ex::set_value(std::move(r));
        }
        void start() & noexcept { h::quiet q; std::thread([this] { run(); }).detach(); }
      };
      template <class R> auto connect(R r) const noexcept -> op<R> { return op<R>(std::move(r), id, never); }
      struct env
      {
        int  id;
        bool never;
        template <class... As> tsched query(ex::get_completion_scheduler_t<ex::set_value_t>, As const &...) const noexcept { return tsched{id, never}; }
      };
      env get_env() const noexcept { return env{id, never}; }
    };
    snd schedule() const noexcept { return snd{id, never}; }
    bool operator==(tsched const &) const noexcept = default;
    using scheduler_concept = ex::scheduler_t;
  };

  // A replacement backend that does whatever the interface permits.
  struct fake : psr::parallel_scheduler_backend
  {
    int  how = 0;      // 0 value, 1 error, 2 stopped, 3 value unless stop was requested
    bool thread = true;
    bool wait = false;  // wait for the stop request
    int  calls = 0;
    static int& live() { static int n; return n; }
    fake() { ++live(); }
    ~fake() { --live(); }
    template <class F> void run(F f)
    {
      ++calls;
      h::quiet q;
      if (thread) std::thread(std::move(f)).detach();
      else f();
    }
    struct wake { std::atomic<int>* a; void operator()() const noexcept { a->store(1); a->notify_all(); } };
    static void finish(psr::receiver_proxy& r, int how, bool wait)
    {
      auto t = r.try_query<ex::inplace_stop_token>(ex::get_stop_token);
      if (wait)
      {
        MC_CHECK(t.has_value());
        std::atomic<int> a{0};
        ex::inplace_stop_callback<wake> cb(*t, wake{&a});
        while (a.load() == 0) a.wait(0);
      }
      if (how == 3) how = t && t->stop_requested() ? 2 : 0;
      if (how == 0) r.set_value();
      else if (how == 1) r.set_error(std::make_exception_ptr(7));
      else r.set_stopped();
    }
    void schedule(psr::receiver_proxy& r, std::span<std::byte> s) noexcept override
    {
      MC_CHECK(s.size() >= STDEXEC_PARALLEL_SCHEDULER_SCHEDULE_OP_SIZE);
      for (auto& b : s) b = std::byte(0xee);  // the storage is the backend's now
      run([&r, s, how = how, wait = wait] {
        h::ctx_id = 9;
        for (auto& b : s) MC_CHECK(b == std::byte(0xee));
        finish(r, how, wait);
      });
    }
    void bulk(std::size_t n, psr::bulk_item_receiver_proxy& r, std::span<std::byte> s, bool chunked)
    {
      for (auto& b : s) b = std::byte(0xee);
      run([&r, s, n, chunked, how = how, wait = wait] {
        h::ctx_id = 9;
        if (chunked)
        {
          // two chunks, in any order, perhaps at the same time
          std::size_t cut = mc::choose(int(n) + 1, "cut");
          int         c = mc::choose(3, "chunks: in order, reversed, concurrent");
          if (c == 0) { if (cut) r.execute(0, cut); if (cut < n) r.execute(cut, n); }
          else if (c == 1) { if (cut < n) r.execute(cut, n); if (cut) r.execute(0, cut); }
          else
          {
            std::thread t([&] { if (cut) r.execute(0, cut); });
            if (cut < n) r.execute(cut, n);
            t.join();
          }
        }
        else if (mc::choose(2, "backwards"))
          for (std::size_t i = n; i-- > 0;) r.execute(i, i + 1);
        else
          for (std::size_t i = 0; i < n; ++i) r.execute(i, i + 1);
        for (auto& b : s) MC_CHECK(b == std::byte(0xee));
        finish(r, how, wait);
      });
    }
    void schedule_bulk_chunked(std::size_t n, psr::bulk_item_receiver_proxy& r, std::span<std::byte> s) noexcept override { bulk(n, r, s, true); }
    void schedule_bulk_unchunked(std::size_t n, psr::bulk_item_receiver_proxy& r, std::span<std::byte> s) noexcept override { bulk(n, r, s, false); }
  };

  // ---------------------------------------------------------------------------------------------
  // one operation
  // when: 0 no stop request, 1 before, 2 meanwhile
  template <class Env, class Sch>
  void one(Sch sch, int when, h::rec& r)
  {
    h::gate                 g;
    ex::inplace_stop_source src;
    if (when == 1) src.request_stop();
    h::go(ex::schedule(sch), r, g, make_env<Env>(src));
    if (when == 2) src.request_stop();
    g.wait();
  }
  template <class Env>
  void ts_schedule(bool never)
  {
    int    when = never ? 1 + int(mc::choose(2, "when")) : int(mc::choose(3, "when"));
    h::rec r;
    {
      ex::task_scheduler t(tsched{4, never});
      if (mc::choose(2, "copy")) { auto u = t; one<Env>(u, when, r); }
      else one<Env>(t, when, r);
    }
    mc::join_all();
    bool stoppable = !std::same_as<Env, env0>;
    if (stoppable && (when == 1 || never)) MC_CHECK(r.is(h::STOP));
    else if (stoppable && when == 2 && r.ch == h::STOP) MC_CHECK(r.is(h::STOP));
    else MC_CHECK(r.is(h::VAL) && r.ctx == 4);
    mc::outcome("%s", r.str().c_str());
  }
  template <class Env>
  void ps_schedule(bool never)
  {
    int    when = never ? 1 + int(mc::choose(2, "when")) : int(mc::choose(3, "when"));
    int    how = never ? 3 : int(mc::choose(4, "backend"));
    bool   th = never || mc::choose(2, "thread");
    auto   f = std::make_shared<fake>();
    fake::live() = 1;
    f->how = how;
    f->thread = th;
    f->wait = never;
    the_backend = f;
    h::rec r;
    {
      auto sch = ex::get_parallel_scheduler();
      the_backend.reset();
      if (mc::choose(3, "scheduler: lives on, dies") == 1)
      {
        // connected but never started
        ex::inplace_stop_source src;
        h::rec r2;
        delete h::make(ex::schedule(sch), r2, make_env<Env>(src), false);
      }
      one<Env>(sch, when, r);
    }
    mc::join_all();
    int calls = f->calls;
    MC_CHECK(f.use_count() == 1);
    f.reset();
    MC_CHECK(fake::live() == 0);
    bool stoppable = !std::same_as<Env, env0>;
    if (stoppable && when == 1) MC_CHECK(r.is(h::STOP) && calls == 0);
    else if (how == 1) MC_CHECK(r.ch == h::ERR && r.n == 1 && r.ctx == (th ? 9 : r.ctx));
    else if (how == 2 || (never && stoppable)) MC_CHECK(r.is(h::STOP));
    else if (r.ch == h::STOP) MC_CHECK(r.is(h::STOP) && stoppable && when == 2);
    else MC_CHECK(r.is(h::VAL));
    mc::outcome("%s", r.str().c_str());
  }
#if MC_PART == 0
  mc::registrar t1{"P19", "task_schedule", +[] { ts_schedule<env0>(false); }, {.preempt = -1}};
  mc::registrar t2{"P19", "task_schedule_stop", +[] { ts_schedule<env1>(false); }, {.preempt = -1}};
  mc::registrar t3{"P19", "task_schedule_other_stop", +[] { ts_schedule<env2>(false); }, {.preempt = -1}};
  mc::registrar t4{"P19", "task_schedule_until_stopped", +[] { ts_schedule<env1>(true); }, {.preempt = -1}};
  mc::registrar t5{"P19", "task_schedule_until_other_stopped", +[] { ts_schedule<env2>(true); }, {.preempt = 5}, {.preempt = -1}};
  mc::registrar t6{"P19", "parallel_schedule", +[] { ps_schedule<env0>(false); }, {.preempt = -1}};
  mc::registrar t7{"P19", "parallel_schedule_stop", +[] { ps_schedule<env1>(false); }, {.preempt = -1}};
  mc::registrar t8{"P19", "parallel_schedule_other_stop", +[] { ps_schedule<env2>(false); }, {.preempt = -1}};
  mc::registrar t9{"P19", "parallel_schedule_until_stopped", +[] { ps_schedule<env1>(true); }, {.preempt = -1}};
  mc::registrar t10{"P19", "parallel_schedule_until_other_stopped", +[] { ps_schedule<env2>(true); }, {.preempt = 4}, {.preempt = -1}};

  // ---------------------------------------------------------------------------------------------
  // copies of a task scheduler are equal exactly when they refer to equal schedulers of one type
  struct other : tsched
  {
    long pad[12] = {};
    bool operator==(other const & o) const noexcept { return id == o.id; }
    explicit other(int i) : tsched{i} {}
  };
  void equality(int depth)
  {
    std::optional<ex::task_scheduler> s[2];
    int                               k[2], v[2];
    s[0].emplace(tsched{k[0] = v[0] = 1});
    s[1].emplace(tsched{k[1] = v[1] = 1});
    for (int i = 0; i < depth; ++i)
    {
      int a = mc::choose(2, "slot"), b = 1 - a;
      switch (mc::choose(6, "tsched 1, tsched 2, other 1, copy construct, copy assign, move assign from a copy"))
      {
      case 0: s[a].emplace(tsched{v[a] = 1}); k[a] = 1; break;
      case 1: s[a].emplace(tsched{v[a] = 2}); k[a] = 1; break;
      case 2: s[a].emplace(other{v[a] = 1}); k[a] = 2; break;
      case 3: s[a].emplace(*s[b]); k[a] = k[b]; v[a] = v[b]; break;
      case 4: *s[a] = *s[b]; k[a] = k[b]; v[a] = v[b]; break;
      default: { auto c = *s[b]; *s[a] = std::move(c); k[a] = k[b]; v[a] = v[b]; }
      }
      MC_CHECK((*s[0] == *s[1]) == (k[0] == k[1] && v[0] == v[1]));
      MC_CHECK(*s[a] == *s[a]);
    }
    for (int a = 0; a < 2; ++a)
    {
      auto snd = ex::schedule(*s[a]);
      MC_CHECK(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(snd)) == *s[a]);
      h::rec r;
      h::go(std::move(snd), r);
      mc::join_all();
      MC_CHECK(r.is(h::VAL) && r.ctx == v[a]);
    }
  }
  mc::registrar e1{"P19", "equality", +[] { equality(3); }, {.preempt = -1}, {.preempt = -1}};

  // the parallel scheduler is one for the whole process, also when threads ask for it at the same time
  void one_instance()
  {
    struct mini : fake {};
    static auto factory = +[]() -> backend_ptr { return std::make_shared<fake>(); };
    fake::live() = 0;
    {
      instance inst;
      inst.__set_backend_factory(factory);
      the_instance = &inst;
      auto a = ex::get_parallel_scheduler(), b = ex::get_parallel_scheduler();
      MC_CHECK(a == b && fake::live() == 1);
      if (mc::choose(2, "replace"))
      {
        inst.__set_backend_factory(factory);
        auto c = ex::get_parallel_scheduler();
        MC_CHECK(c != a && a == b && fake::live() == 2);
        a = c;
        MC_CHECK(a != b);
      }
      h::rec r;
      h::go(ex::schedule(b), r);
      mc::join_all();
      MC_CHECK(r.is(h::VAL) && r.ctx == 9);
    }
    the_instance = nullptr;
    MC_CHECK(fake::live() == 0);
  }
  mc::registrar i1{"P19", "instance", one_instance, {.preempt = -1}};
#endif

  // ---------------------------------------------------------------------------------------------
  // bulk
  // policies: par, seq, par_unseq, unseq; algorithms: bulk, chunked, unchunked
  struct visits
  {
    std::atomic<int> n[8]{};
    std::atomic<int> bad{0};
    void see(long i, tv& v, long shape) { if (i < 0 || i >= shape || v.get() != 5) bad.fetch_add(1); else n[i].fetch_add(1); }
  };
  template <int Alg, class Pol, class Sch, class Env>
  void bulk(Sch sch, Pol pol, int shape, int throw_at, visits& vs, h::rec& r, h::gate& g, Env env, int pred = 0)
  {
    static int  sh, ta;
    static visits* v;
    sh = shape; ta = throw_at; v = &vs;
    auto visit = [](long i, tv& x) {
      v->see(i, x, sh);
      if (i == ta) throw 77;
    };
    auto one = [visit](int i, tv& x) { visit(i, x); };
    auto many = [visit](int b, int e, tv& x) { for (int i = b; i < e; ++i) visit(i, x); };
    auto from = ex::continues_on(h::src{pred == 0 ? h::VAL : pred == 1 ? h::ERR : h::STOP, 5}, sch);
    if constexpr (Alg == 0) h::go(ex::bulk(std::move(from), pol, shape, one), r, g, env);
    else if constexpr (Alg == 1) h::go(ex::bulk_chunked(std::move(from), pol, shape, many), r, g, env);
    else h::go(ex::bulk_unchunked(std::move(from), pol, shape, one), r, g, env);
  }
  template <int Alg, class Sch, class Env>
  void bulk_pol(Sch sch, int shape, int throw_at, visits& v, h::rec& r, h::gate& g, Env env, int pred = 0)
  {
    if (mc::choose(2, "seq")) bulk<Alg>(sch, ex::seq, shape, throw_at, v, r, g, env, pred);
    else bulk<Alg>(sch, ex::par, shape, throw_at, v, r, g, env, pred);
  }
  void all_once(visits& v, int shape)
  {
    MC_CHECK(v.bad.load() == 0);
    for (int i = 0; i < shape; ++i) MC_CHECK(v.n[i].load() == 1);
  }
#if MC_PART == 1
  template <int Alg>
  void ts_bulk(bool faults)
  {
    int                     shape = mc::choose(4, "shape"), at = faults ? int(mc::choose(4, "throwing index")) : -1;
    if (at >= shape) mc::discard();
    int                     pred = faults ? 0 : int(mc::choose(3, "predecessor"));
    visits                  v;
    h::rec                  r;
    h::gate                 g;
    ex::inplace_stop_source src;
    ex::task_scheduler      t(tsched{4});
    bulk_pol<Alg>(t, shape, at, v, r, g, env0{}, pred);
    g.wait();
    mc::join_all();
    if (faults) MC_CHECK(r.ch == h::ERR && r.n == 1 && v.bad.load() == 0 && v.n[at].load() == 1);
    else if (pred == 0) { MC_CHECK(r.is(h::VAL, 5) && r.ctx == 4); all_once(v, shape); }
    else MC_CHECK(pred == 1 ? r.is(h::ERR, 5) : r.is(h::STOP));
  }
  mc::registrar b1{"P19", "task_bulk", +[] { ts_bulk<0>(false); }, {.preempt = -1}};
  mc::registrar b2{"P19", "task_bulk_chunked", +[] { ts_bulk<1>(false); }, {.preempt = -1}};
  mc::registrar b3{"P19", "task_bulk_unchunked", +[] { ts_bulk<2>(false); }, {.preempt = -1}};
  mc::registrar b4{"P19", "task_bulk_throws", +[] { ts_bulk<0>(true); }, {.preempt = -1}};
  mc::registrar b5{"P19", "task_bulk_chunked_throws", +[] { ts_bulk<1>(true); }, {.preempt = -1}};
  mc::registrar b6{"P19", "task_bulk_unchunked_throws", +[] { ts_bulk<2>(true); }, {.preempt = -1}};

  template <int Alg, class Env>
  void ps_bulk(bool never)
  {
    int shape = mc::choose(4, "shape"), how = never ? 3 : int(mc::choose(4, "backend")), when = never ? 1 + int(mc::choose(2, "when")) : int(mc::choose(3, "when"));
    int pred = (never || how || when) ? 0 : int(mc::choose(3, "predecessor"));
    auto f = std::make_shared<fake>();
    f->how = how;
    f->thread = never || mc::choose(2, "thread");
    f->wait = never;
    fake::live() = 1;
    the_backend = f;
    visits v;
    h::rec r;
    int    calls;
    {
      h::gate                 g;
      ex::inplace_stop_source src;
      auto                    sch = ex::get_parallel_scheduler();
      the_backend.reset();
      if (when == 1) src.request_stop();
      // the transition itself always works here
      bulk_pol<Alg>(sch, shape, -1, v, r, g, make_env<Env>(src), pred);
      if (when == 2) src.request_stop();
      g.wait();
    }
    mc::join_all();
    calls = f->calls;
    MC_CHECK(f.use_count() == 1);
    f.reset();
    MC_CHECK(fake::live() == 0 && v.bad.load() == 0);
    if (pred) { MC_CHECK(pred == 1 ? r.is(h::ERR, 5) : r.is(h::STOP)); return; }
    bool stoppable = !std::same_as<Env, env0>;
    if (r.ch == h::VAL) { MC_CHECK(r.is(h::VAL, 5) && (how == 0 || how == 3) && !(stoppable && when == 1)); all_once(v, shape); }
    else if (r.ch == h::ERR) MC_CHECK(r.n == 1 && how == 1);
    else MC_CHECK(r.is(h::STOP) && (how == 2 || (stoppable && when)));
    if (!when && how == 0) MC_CHECK(r.ch == h::VAL && calls == 2);
    mc::outcome("%s", r.str().c_str());
  }
  // values whose move throws
  struct risky
  {
    tv v;
    explicit risky(int i) : v(i) {}
    risky(risky&& o) : v(0) { if (h::tick()) throw h::boom{3}; v = std::move(o.v); }
    risky(risky const & o) : v(0) { if (h::tick()) throw h::boom{3}; v = o.v; }
  };
  struct rsrc
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures<ex::set_value_t(risky), ex::set_error_t(std::exception_ptr)>;
    bool throws;
    template <class R>
    struct op
    {
      R r; bool throws;
      void start() & noexcept { ex::set_value(std::move(r), risky(5)); }
    };
    template <class R> auto connect(R r) const -> op<R> { if (throws) throw h::boom{4}; return op<R>{std::move(r)}; }
  };
  struct rrcv
  {
    using receiver_concept = ex::receiver_t;
    h::rec* r;
    void set_value(risky&& v) noexcept { r->hit(h::VAL); r->push(v.v.get()); }
    void set_error(std::exception_ptr e) noexcept { r->hit(h::ERR); r->push(h::decode(e)); }
    void set_stopped() noexcept { r->hit(h::STOP); }
  };
  template <class Sch>
  void value_faults(Sch sch, bool par)
  {
    static long seen;
    seen = 0;
    bool   ct = mc::choose(2, "connect throws");
    long   at = ct ? 0 : mc::choose(par ? 6 : 8, "throwing move");
    h::rec r;
    bool   thrown = false;
    auto   s = ex::bulk_unchunked(ex::then(ex::schedule(sch), [] {}) | ex::let_value([ct] { return rsrc{ct}; }) , ex::par, 2, [](int, risky& x) { seen += x.v.get(); });
    auto   op = ex::connect(std::move(s), rrcv{&r});
    h::throw_at = at;
    ex::start(op);
    mc::join_all();
    h::throw_at = 0;
    if (ct) MC_CHECK(r.is(h::ERR, 1004) && seen == 0);
    else if (at == 0) MC_CHECK(r.is(h::VAL, 5) && seen == 10);
    else if (r.ch == h::ERR) MC_CHECK(r.is(h::ERR, 1003));
    else MC_CHECK(r.is(h::VAL, 5));
    (void) thrown;
    mc::outcome("%s", r.str().c_str());
  }
  mc::registrar v1{"P19", "parallel_bulk_value_faults", +[] {
    auto f = std::make_shared<fake>();
    f->thread = mc::choose(2, "thread");
    the_backend = f;
    auto sch = ex::get_parallel_scheduler();
    the_backend.reset();
    value_faults(sch, true);
  }, {.preempt = 2}};
  mc::registrar v2{"P19", "task_bulk_value_faults", +[] { value_faults(ex::task_scheduler(tsched{4}), false); }, {.preempt = 2}};
  mc::registrar p1{"P19", "parallel_bulk", +[] { ps_bulk<0, env0>(false); }, {.preempt = -1}};
  mc::registrar p2{"P19", "parallel_bulk_chunked", +[] { ps_bulk<1, env1>(false); }, {.preempt = -1}};
  mc::registrar p3{"P19", "parallel_bulk_unchunked", +[] { ps_bulk<2, env1>(false); }, {.preempt = -1}};
#endif
#if MC_PART == 2
  // ---------------------------------------------------------------------------------------------
  // the default backend, on its pool
  template <class Env>
  void on_pool(int cpus)
  {
    mc::set_ncpu(cpus);
    h::rec r;
    int    when = mc::choose(3, "when");
    {
      instance inst;
      the_instance = &inst;
      one<Env>(ex::get_parallel_scheduler(), when, r);
      the_instance = nullptr;
    }
    bool stoppable = !std::same_as<Env, env0>;
    if (stoppable && when == 1) MC_CHECK(r.is(h::STOP));
    else if (stoppable && when == 2 && r.ch == h::STOP) MC_CHECK(r.is(h::STOP));
    else MC_CHECK(r.is(h::VAL));
    mc::outcome("%s", r.str().c_str());
  }
  mc::registrar d1{"P19", "pool_schedule", +[] { on_pool<env1>(1); }, {.preempt = 3}, {.preempt = 4}};
  mc::registrar d2{"P19", "pool_schedule_other", +[] { on_pool<env2>(1); }, {.preempt = 3}, {.preempt = 4}};
  template <int Alg>
  void bulk_on_pool(int cpus, int shape)
  {
    mc::set_ncpu(cpus);
    h::rec r;
    visits v;
    {
      instance inst;
      the_instance = &inst;
      {
        h::gate g;
        auto    sch = ex::get_parallel_scheduler();
        bulk_pol<Alg>(sch, shape, -1, v, r, g, env0{});
        g.wait();
      }
      the_instance = nullptr;
    }
    MC_CHECK(r.is(h::VAL, 5));
    all_once(v, shape);
  }
  mc::registrar d3{"P19", "pool_bulk_chunked_1", +[] { bulk_on_pool<1>(1, int(mc::choose(8, "shape"))); }, {.preempt = 2}, {.preempt = 3}};
  mc::registrar d4{"P19", "pool_bulk_unchunked_1", +[] { bulk_on_pool<2>(1, int(mc::choose(3, "shape"))); }, {.preempt = 2}, {.preempt = 3}};
  mc::registrar d5{"P19", "pool_bulk_chunked_2", +[] { bulk_on_pool<1>(2, 7); }, {.preempt = 1}, {.preempt = 2}};
  void first_use()
  {
    static auto factory = +[]() -> backend_ptr { return std::make_shared<fake>(); };
    (void) factory;
    mc::set_ncpu(1);
    instance inst;
    the_instance = &inst;
    std::optional<ex::parallel_scheduler> a;
    std::thread t([&] { a.emplace(ex::get_parallel_scheduler()); });
    auto b = ex::get_parallel_scheduler();
    t.join();
    MC_CHECK(*a == b && b == ex::get_parallel_scheduler());
    a.reset();
    the_instance = nullptr;
  }
  mc::registrar d6{"P19", "first_use", first_use, {.preempt = 2}, {.preempt = 3}};
  // a task scheduler for a scheduler of the pool
  template <int Alg>
  void ts_pool(int n, int shape)
  {
    h::rec r;
    visits v;
    {
      exec::static_thread_pool pool(n);
      ex::task_scheduler t(pool.get_scheduler());
      h::gate g;
      bulk_pol<Alg>(t, shape, -1, v, r, g, env0{});
      g.wait();
    }
    MC_CHECK(r.is(h::VAL, 5));
    all_once(v, shape);
  }
  // ... where allocations fail
  template <int Alg>
  void ts_pool_faults()
  {
    h::rec r;
    visits v;
    int    k = mc::choose(2, "failing allocation");
    {
      exec::static_thread_pool pool(1);
      ex::task_scheduler t(pool.get_scheduler());
      h::gate g;
      static int n;
      n = 0;
      static visits* vp;
      vp = &v;
      auto visit = [](int i, tv& x) { vp->see(i, x, 2); };
      auto many = [visit](int b, int e, tv& x) { for (int i = b; i < e; ++i) visit(i, x); };
      auto from = ex::continues_on(h::src{h::VAL, 5}, t) | ex::then([k](tv x) { mc::fail_alloc(k); return x; });
      if constexpr (Alg == 1) h::go(ex::bulk_chunked(std::move(from), ex::par, 2, many), r, g, env0{});
      else h::go(ex::bulk_unchunked(std::move(from), ex::par, 2, visit), r, g, env0{});
      g.wait();
      mc::fail_alloc(0);
    }
    if (k == 0) MC_CHECK(r.is(h::VAL, 5));
    if (r.ch == h::VAL) { MC_CHECK(r.is(h::VAL, 5)); all_once(v, 2); }
    else MC_CHECK(r.ch == h::ERR && r.n == 1 && k);
    mc::outcome("%s", r.str().c_str());
  }
  // ... where any of the function's calls throw: one error, and it is one that was thrown
  template <int Alg>
  void ts_pool_throws()
  {
    h::rec r;
    visits v;
    int    bad = mc::choose(4, "throwing indices");
    {
      exec::static_thread_pool pool(2);
      ex::task_scheduler t(pool.get_scheduler());
      h::gate g;
      static visits* vp;
      static int     tb;
      vp = &v; tb = bad;
      auto visit = [](int i, tv& x) { vp->see(i, x, 2); if (tb >> i & 1) throw 70 + i; };
      auto many = [visit](int b, int e, tv& x) { for (int i = b; i < e; ++i) visit(i, x); };
      auto from = ex::continues_on(h::src{h::VAL, 5}, t);
      if constexpr (Alg == 1) h::go(ex::bulk_chunked(std::move(from), ex::par, 2, many), r, g, env0{});
      else h::go(ex::bulk_unchunked(std::move(from), ex::par, 2, visit), r, g, env0{});
      g.wait();
    }
    if (bad == 0) { MC_CHECK(r.is(h::VAL, 5)); all_once(v, 2); }
    else
    {
      int which = int(r.v[0]) - 70;
      MC_CHECK(r.n == 1 && r.ch == h::ERR && (which == 0 || which == 1) && (bad >> which & 1) && v.n[which].load() == 1);
      MC_CHECK(v.bad.load() == 0 && v.n[0].load() <= 1 && v.n[1].load() <= 1);
    }
    mc::outcome("%d %s", bad, r.str().c_str());
  }
  mc::registrar d11{"P19", "task_pool_bulk_chunked_throws", ts_pool_throws<1>, {.preempt = 2}, {.preempt = 3}};
  mc::registrar d12{"P19", "task_pool_bulk_unchunked_throws", ts_pool_throws<2>, {.preempt = 2}, {.preempt = 3}};
  mc::registrar d9{"P19", "task_pool_bulk_chunked_faults", ts_pool_faults<1>, {.preempt = 1}, {.preempt = 2}};
  mc::registrar d10{"P19", "task_pool_bulk_unchunked_faults", ts_pool_faults<2>, {.preempt = 1}, {.preempt = 2}};
  mc::registrar d7{"P19", "task_pool_bulk_chunked", +[] { ts_pool<1>(1, int(mc::choose(3, "shape"))); }, {.preempt = 2}, {.preempt = 3}};
  mc::registrar d8{"P19", "task_pool_bulk_unchunked", +[] { ts_pool<2>(2, 2); }, {.preempt = 1}, {.preempt = 2}};
#endif
}
