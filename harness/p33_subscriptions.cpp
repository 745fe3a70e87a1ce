// P33: whatever an operation subscribed to its receiver's stop token is gone when it delivers its completion: the
// receiver's stop source may end right there.
// PARTS: 17
#include "catalogue.hpp"
#include "subscription.hpp"
#include <utility>
#if MC_PART == 0
#include <exec/sequence/any_sequence_of.hpp>
#include <exec/sequence/ignore_all_values.hpp>
#include <exec/sequence/iterate.hpp>
#include <exec/sequence/merge.hpp>
#include <exec/sequence/merge_each.hpp>
#include <exec/sequence/transform_each.hpp>
#include <exec/static_thread_pool.hpp>
#include <exec/task.hpp>
#include <exec/timed_thread_scheduler.hpp>
#include <exec/trampoline_scheduler.hpp>
#include <stdexec/__detail/__parallel_scheduler.hpp>
#include <stdexec/__detail/__task.hpp>
#include <stdexec/__detail/__task_scheduler.hpp>
#endif
using h::tv;

namespace
{
  using namespace sub;
#if MC_PART > 0
  template <int I, class Env>
  void one(h::chan c, h::mode m, int request)
  {
    using A = cat::ad<I>;
    h::rec              r;
    typename A::state   st;
    run<Env>(A::wrap(h::src{c, 7, m}, st), request, r);
    mc::join_all();
    mc::outcome("%s %d %d %d %s", A::name, c, m, request, r.str().c_str());
  }
  template <int I, int J>
  void two(h::chan c, h::mode m, int request)
  {
    using A = cat::ad<I>;
    using B = cat::ad<J>;
    if constexpr (cat::nestable(A::mask, B::mask))
    {
      h::rec            r;
      typename B::state sb;
      typename A::state sa;
      run<ienv>(A::wrap(B::wrap(h::src{c, 7, m}, sb), sa), request, r);
      mc::join_all();
    }
  }
  // a stop-aware sender completes on its own thread, or not before it is asked to stop
  template <int I, class Env> void stoppable(int request)
  {
    using A = cat::ad<I>;
    if constexpr (!(A::mask & cat::COPY))
    {
      h::rec r;
      int    stops = 0, started = 0;
      for (auto& x: h::ssrc_state) x.store(0, std::memory_order_relaxed);
      auto              c = h::pick_chan();
      typename A::state st;
      run<Env>(A::wrap(h::ssrc(c, 7, 0, &stops, &started), st), request, r);
      mc::join_all();
      MC_CHECK(stops <= 1 && started <= 1);
      mc::outcome("%s %d %s", A::name, c, r.str().c_str());
    }
  }
  // quick: the inner adaptor is one of these; thorough: all of them
  constexpr bool inner(int j) { return MC_THOROUGH || j % 4 == 1; }
  template <int I> void row()
  {
    int  n = mc::choose(cat::count, "inner adaptor");
    auto c = h::pick_chan();
    auto m = h::pick_mode();
    auto call = [&]<int J>(std::integral_constant<int, J>) { if constexpr (inner(J)) two<I, J>(c, m, mc::choose(2, "requested before")); else mc::discard(); };
    [&]<int... J>(std::integer_sequence<int, J...>) { ((J == n ? call(std::integral_constant<int, J>{}) : void()), ...); }(std::make_integer_sequence<int, cat::count>{});
  }
  template <int I> void alone()
  {
    auto c = h::pick_chan();
    auto m = h::pick_mode();
    int  q = mc::choose(4, "stop request: none, before, meanwhile, after the start");
    mc::choose(2, "counting token") ? one<I, cenv>(c, m, q) : one<I, ienv>(c, m, q);
  }
  template <int I> void stops()
  {
    int q = mc::choose(4, "stop request: none, before, meanwhile, after the start");
    mc::choose(2, "counting token") ? stoppable<I, cenv>(q) : stoppable<I, ienv>(q);
  }
  template <int I> struct reg
  {
    static constexpr bool det = (cat::ad<I>::mask & cat::DETACHED) != 0;
    static char const* name(char const* a) { return (new std::string(std::string(a) + cat::ad<I>::name))->c_str(); }
    mc::registrar r{"P33", name("alone_"), +[] { alone<I>(); }, {.preempt = 3}, {.preempt = det ? 5 : -1}};
    mc::registrar t{"P33", name("stops_"), +[] { stops<I>(); }, {.preempt = 2}, {.preempt = det ? 4 : 5}};
    mc::registrar n{"P33", name("nest_"), +[] { row<I>(); }, {.preempt = det ? 2 : -1}, {.preempt = det ? 3 : -1}};
  };
  template <int I> constexpr bool mine = I % (MC_PARTS - 1) == MC_PART - 1;
  template <int... I> int regs(std::integer_sequence<int, I...>)
  {
    ([] { if constexpr (mine<I>) static reg<I> r; }(), ...);
    return 0;
  }
  int all = regs(std::make_integer_sequence<int, cat::count>{});
#else
  // every request, both kinds of tokens
  template <class F>
  void both(F f)
  {
    for (auto& x: h::ssrc_state) x.store(0, std::memory_order_relaxed);
    int q = mc::choose(4, "stop request: none, before, meanwhile, after the start");
    h::rec r;
    if (mc::choose(2, "counting token")) f([&](auto s) { run<cenv>(std::move(s), q, r); }, q);
    else f([&](auto s) { run<ienv>(std::move(s), q, r); }, q);
    mc::outcome("%d %s", q, r.str().c_str());
  }
  template <class F>
  void inplace(F f)
  {
    for (auto& x: h::ssrc_state) x.store(0, std::memory_order_relaxed);
    int q = mc::choose(4, "stop request: none, before, meanwhile, after the start");
    h::rec r;
    f([&](auto s) { run<ienv>(std::move(s), q, r); }, q);
    mc::outcome("%d %s", q, r.str().c_str());
  }
  // two stop-aware senders
  h::ssrc one(int slot, int q)
  {
    auto c = h::pick_chan();
    if (q && mc::choose(2, "only completes when stopped")) c = h::NONE;
    return h::ssrc(c, 7, slot);
  }
  void when_all_2() { both([](auto go, int q) { go(ex::when_all(one(0, q), one(1, q))); }); mc::join_all(); }
  void when_any_2() { both([](auto go, int q) { go(exec::when_any(one(0, q), one(1, q))); }); mc::join_all(); }
  void merge_2() { both([](auto go, int q) { go(exec::ignore_all_values(exec::merge(one(0, q), one(1, q)))); }); mc::join_all(); }
  void merge_each_2() { both([](auto go, int q) { go(exec::ignore_all_values(exec::merge_each(ex::just(exec::merge(one(0, q), one(1, q)))))); }); mc::join_all(); }
  mc::registrar a1{"P33", "when_all_2", when_all_2, {.preempt = 2}, {.preempt = 3}};
  mc::registrar a2{"P33", "when_any_2", when_any_2, {.preempt = 2}, {.preempt = 3}};
  mc::registrar a3{"P33", "merge_2", merge_2, {.preempt = 1}, {.preempt = 3}};
  mc::registrar a4{"P33", "merge_each_2", merge_each_2, {.preempt = 1}, {.preempt = 3}};

  // erasure (asks for this type of token)
  using sigs = ex::completion_signatures<ex::set_value_t(tv), ex::set_error_t(int), ex::set_stopped_t()>;
  void erased() { inplace([](auto go, int q) { go(exec::any_sender<exec::any_receiver<sigs, exec::queries<ex::inplace_stop_token(ex::get_stop_token_t) noexcept>>>(one(0, q))); }); mc::join_all(); }
  mc::registrar e1{"P33", "any_sender", erased, {.preempt = 3}, {.preempt = 5}};

  // coroutines
  struct inl_task_env { using start_scheduler_type = ex::inline_scheduler; };
  template <class T> T coro(h::ssrc s) { auto v = co_await std::move(s); co_return v.get(); }
  template <class T> void task() { both([](auto go, int q) { go(coro<T>(one(0, q))); }); mc::join_all(); }
  mc::registrar c1{"P33", "exec_task", task<exec::task<int>>, {.preempt = 2}, {.preempt = 4}};
  mc::registrar c2{"P33", "task", task<ex::task<int>>, {.preempt = 2}, {.preempt = 4}};
  mc::registrar c3{"P33", "inline_task", task<ex::task<int, inl_task_env>>, {.preempt = 2}, {.preempt = 4}};

  // waiting for scopes
  void on_empty()
  {
    both([](auto go, int) {
      exec::async_scope scope;
      scope.spawn(h::src{h::VAL, 1, h::REMOTE} | ex::then([](tv) noexcept {}) | ex::upon_error([](int) noexcept {}));
      go(scope.on_empty());
      ex::sync_wait(scope.on_empty());
    });
    mc::join_all();
  }
  template <class Scope> void join()
  {
    both([](auto go, int) {
      Scope scope;
      ex::spawn(h::src{h::VAL, 1, h::REMOTE} | ex::then([](tv) noexcept {}) | ex::upon_error([](int) noexcept {}), scope.get_token());
      go(scope.join());
    });
    mc::join_all();
  }
  mc::registrar s1{"P33", "on_empty", on_empty, {.preempt = 2}, {.preempt = 3}};
  mc::registrar s2{"P33", "join", join<ex::counting_scope>, {.preempt = 2}, {.preempt = 3}};
  mc::registrar s3{"P33", "simple_join", join<ex::simple_counting_scope>, {.preempt = 2}, {.preempt = 3}};

  // schedulers
  void loop()
  {
    both([](auto go, int) {
      ex::run_loop l;
      std::thread  t([&] { l.run(); });
      go(ex::schedule(l.get_scheduler()));
      l.finish();
      t.join();
    });
  }
  void pool(int n)
  {
    both([n](auto go, int) {
      exec::static_thread_pool p(n);
      go(ex::schedule(p.get_scheduler()) | ex::bulk_unchunked(ex::par, n, [](int) noexcept {}));
    });
  }
  void timer()
  {
    int k = mc::choose(2, "due");
    both([k](auto go, int q) {
      exec::timed_thread_context c;
      go(exec::schedule_after(c.get_scheduler(), k || !q ? std::chrono::milliseconds(k ? -1 : 1) : std::chrono::hours(1)));
    });
  }
  void trampoline()
  {
    both([](auto go, int) { go(ex::schedule(exec::trampoline_scheduler(1)) | ex::let_value([] { return ex::schedule(exec::trampoline_scheduler(1)); })); });
  }
  mc::registrar d1{"P33", "run_loop", loop, {.preempt = 2}, {.preempt = 4}};
  mc::registrar d2{"P33", "pool_1", +[] { pool(1); }, {.preempt = 2}, {.preempt = 3}};
  mc::registrar d3{"P33", "pool_2", +[] { pool(2); }, {.preempt = 1}, {.preempt = 2}};
  mc::registrar d4{"P33", "timer", timer, {.preempt = 2}, {.preempt = 3}};
  mc::registrar d5{"P33", "trampoline", trampoline, {.preempt = -1}};

  // forwarding schedulers over something that completes with a value, or waits to be stopped
  struct backend : ex::parallel_scheduler_replacement::parallel_scheduler_backend
  {
    int how = 0;
    struct wake { std::atomic<int>* a; void operator()() const noexcept { a->store(1); a->notify_all(); } };
    void finish(ex::parallel_scheduler_replacement::receiver_proxy& r)
    {
      h::quiet q;
      std::thread([how = how, &r] {
        if (how == 0) r.set_value();
        else if (how == 1) r.set_error(std::make_exception_ptr(7));
        else if (how == 2) r.set_stopped();
        else
        {
          {
            auto t = r.try_query<ex::inplace_stop_token>(ex::get_stop_token);
            MC_CHECK(t.has_value());
            std::atomic<int> a{0};
            ex::inplace_stop_callback<wake> cb(*t, wake{&a});
            while (a.load() == 0) a.wait(0);
          }
          r.set_stopped();
        }
      }).detach();
    }
    void schedule(ex::parallel_scheduler_replacement::receiver_proxy& r, std::span<std::byte>) noexcept override { finish(r); }
    void schedule_bulk_chunked(std::size_t, ex::parallel_scheduler_replacement::bulk_item_receiver_proxy& r, std::span<std::byte>) noexcept override { finish(r); }
    void schedule_bulk_unchunked(std::size_t, ex::parallel_scheduler_replacement::bulk_item_receiver_proxy& r, std::span<std::byte>) noexcept override { finish(r); }
  };
  std::shared_ptr<backend> the_backend;
  void parallel(bool bulk)
  {
    both([=](auto go, int q) {
      the_backend = std::make_shared<backend>();
      the_backend->how = mc::choose(q ? 4 : 3, "completes with value, error, stopped, when asked to stop");
      if (bulk) go(ex::schedule(ex::get_parallel_scheduler()) | ex::bulk_unchunked(ex::par, 2, [](int) noexcept {}));
      else go(ex::schedule(ex::get_parallel_scheduler()));
      mc::join_all();
      the_backend.reset();
    });
  }
  // completes with a value on a thread, or waits to be stopped
  struct tsched
  {
    bool never;
    struct snd
    {
      using sender_concept = ex::sender_t;
      template <class, class Env>
      static consteval auto get_completion_signatures()
      {
        if constexpr (ex::unstoppable_token<ex::stop_token_of_t<Env>>) return ex::completion_signatures<ex::set_value_t()>{};
        else return ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>{};
      }
      bool never;
      template <class R>
      struct op
      {
        R    r;
        bool never;
        op(R rr, bool n) : r(std::move(rr)), never(n) {}
        op(op&&) = delete;
        void run() noexcept
        {
          if (!never) return ex::set_value(std::move(r));
          {
            std::atomic<int> a{0};
            ex::stop_callback_for_t<ex::stop_token_of_t<ex::env_of_t<R>>, backend::wake> cb(ex::get_stop_token(ex::get_env(r)), backend::wake{&a});
            while (a.load() == 0) a.wait(0);
          }
          if constexpr (!ex::unstoppable_token<ex::stop_token_of_t<ex::env_of_t<R>>>) ex::set_stopped(std::move(r));
        }
        void start() & noexcept { h::quiet q; std::thread([this] { run(); }).detach(); }
      };
      template <class R> auto connect(R r) const noexcept -> op<R> { return op<R>(std::move(r), never); }
      struct env
      {
        bool never;
        template <class... As> tsched query(ex::get_completion_scheduler_t<ex::set_value_t>, As const &...) const noexcept { return tsched{never}; }
      };
      env get_env() const noexcept { return env{never}; }
    };
    snd schedule() const noexcept { return snd{never}; }
    bool operator==(tsched const &) const noexcept = default;
    using scheduler_concept = ex::scheduler_t;
  };
  void forwarded()
  {
    both([=](auto go, int q) {
      go(ex::schedule(ex::task_scheduler(tsched{q && mc::choose(2, "only completes when stopped")})));
      mc::join_all();
    });
  }
  mc::registrar f1{"P33", "parallel_schedule", +[] { parallel(false); }, {.preempt = 3}, {.preempt = 5}};
  mc::registrar f2{"P33", "parallel_bulk", +[] { parallel(true); }, {.preempt = 3}, {.preempt = 5}};
  mc::registrar f3{"P33", "task_scheduler", forwarded, {.preempt = 3}, {.preempt = 5}};
#endif
}
#if MC_PART == 0
namespace STDEXEC::parallel_scheduler_replacement
{
  auto query_parallel_scheduler_backend() -> std::shared_ptr<parallel_scheduler_backend> { return the_backend; }
}
#endif
