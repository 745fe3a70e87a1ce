// P29: the environment of the receiver reaches every sender below it.
// PARTS: 16
#include "catalogue.hpp"
#include <utility>
using h::tv;

namespace
{
  // ---- the environment: one forwarding user query, one allocator, two schedulers, a stop token
  struct tag_t
  {
    template <class Env> auto operator()(Env const & e) const noexcept -> decltype(e.query(*this)) { return e.query(*this); }
    static constexpr bool query(ex::forwarding_query_t) noexcept { return true; }
  };
  struct tag2_t
  {
    template <class Env> auto operator()(Env const & e) const noexcept -> decltype(e.query(*this)) { return e.query(*this); }
    static constexpr bool query(ex::forwarding_query_t) noexcept { return true; }
  };
  template <class T> struct alloc
  {
    using value_type = T;
    int id;
    explicit alloc(int i) : id(i) {}
    template <class U> alloc(alloc<U> const & o) : id(o.id) {}
    T* allocate(std::size_t n) { return std::allocator<T>{}.allocate(n); }
    void deallocate(T* p, std::size_t n) { std::allocator<T>{}.deallocate(p, n); }
    template <class U> bool operator==(alloc<U> const & o) const { return id == o.id; }
  };
  // an infallible inline scheduler with an identity
  struct isched
  {
    using scheduler_concept = ex::scheduler_t;
    int id;
    struct snd
    {
      using sender_concept = ex::sender_t;
      using completion_signatures = ex::completion_signatures<ex::set_value_t()>;
      int id;
      template <class R> struct op { R r; void start() & noexcept { ex::set_value(std::move(r)); } };
      template <class R> auto connect(R r) const noexcept -> op<R> { return {std::move(r)}; }
      struct env { int id; template <class T, class... As> isched query(ex::get_completion_scheduler_t<T>, As const &...) const noexcept { return {id}; } };
      env get_env() const noexcept { return {id}; }
    };
    snd  schedule() const noexcept { return {id}; }
    bool operator==(isched const &) const noexcept = default;
  };
  struct env
  {
    ex::inplace_stop_token tok;
    int                    tag = 42;
    ex::inplace_stop_token query(ex::get_stop_token_t) const noexcept { return tok; }
    isched                 query(ex::get_start_scheduler_t) const noexcept { return {7}; }
    isched                 query(ex::get_scheduler_t) const noexcept { return {8}; }
    isched                 query(ex::get_delegation_scheduler_t) const noexcept { return {9}; }
    alloc<char>            query(ex::get_allocator_t) const noexcept { return alloc<char>{10}; }
    int                    query(tag_t) const noexcept { return tag; }
    int const &            query(tag2_t) const noexcept { return tag; }
  };

  // ---- what a sender saw
  struct seen
  {
    int  starts = 0;
    int  tag = -1, tag2 = -1, al = -1, start = -1, sched = -1, deleg = -1;
    int  tag_late = -1;
    bool stop_before = false, stop_after = false, late_after = false;
    int  cb = 0;
  };
  template <class Q, class Env> int id_of(Env const & e)
  {
    if constexpr (requires { Q{}(e); })
    {
      if constexpr (std::is_same_v<Q, tag_t> || std::is_same_v<Q, tag2_t>) return Q{}(e);
      else if constexpr (requires { Q{}(e).id; }) return Q{}(e).id;
      else return -3;
    }
    else return -2;
  }
  // reads the environment when it is started and again right before it completes; in between the stop source is
  // triggered (if given)
  struct probe_data { seen* s; ex::inplace_stop_source* src; h::mode m; };
  struct probe : probe_data
  {
    probe(seen* s, ex::inplace_stop_source* src, h::mode m) : probe_data{s, src, m} {}
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures<ex::set_value_t(tv), ex::set_error_t(int), ex::set_stopped_t()>;
    template <class R>
    struct op
    {
      struct cb { seen* s; void operator()() noexcept { ++s->cb; } };
      using tok_t = ex::stop_token_of_t<ex::env_of_t<R>>;
      R r; probe_data p;
      op(R rr, probe_data pp) : r(std::move(rr)), p(pp) {}
      op(op&&) = delete;
      void finish() noexcept
      {
        decltype(auto) e = ex::get_env(r);
        p.s->tag_late = id_of<tag_t>(e);
        p.s->late_after = ex::get_stop_token(e).stop_requested();
        ex::set_value(std::move(r), tv(7));
      }
      void start() & noexcept
      {
        ++p.s->starts;
        {
          decltype(auto) e = ex::get_env(r);
          auto&          s = *p.s;
          s.tag = id_of<tag_t>(e);
          s.tag2 = id_of<tag2_t>(e);
          s.al = id_of<ex::get_allocator_t>(e);
          s.start = id_of<ex::get_start_scheduler_t>(e);
          s.sched = id_of<ex::get_scheduler_t>(e);
          s.deleg = id_of<ex::get_delegation_scheduler_t>(e);
          auto tok = ex::get_stop_token(e);
          s.stop_before = tok.stop_requested();
          {
            ex::stop_callback_for_t<tok_t, cb> c(tok, cb{&s});
            if (p.src) p.src->request_stop();
            s.stop_after = tok.stop_requested();
          }
        }
        if (p.m == h::INLINE) finish();
        else std::thread([this] { finish(); }).detach();
      }
    };
    template <class R> auto connect(R r) const -> op<R> { return op<R>(std::move(r), *this); }
  };
  void verify(seen const & s, unsigned mask, bool stop, char const * a, char const * b)
  {
#define SAME(X, V) do { if (s.X != V) mc::fail("%s(%s): query " #X " was answered %d instead of %d", a, b, int(s.X), int(V)); } while (0)
    if (s.starts < 1) mc::fail("%s(%s): the sender was not started", a, b);
    if (!(mask & cat::DETACHED))
    {
      SAME(tag, 42);
      SAME(tag_late, 42);
      SAME(tag2, 42);
      SAME(al, 10);
      SAME(deleg, 9);
      if (!(mask & cat::SCHED)) { SAME(start, 7); SAME(sched, 8); }
    }
    if (!(mask & (cat::STOP_NONE | cat::DETACHED)))
    {
      if (s.starts == 1) SAME(stop_before, false);
      SAME(stop_after, stop);
      SAME(late_after, stop);
      if (stop) { if (s.cb < 1 || s.cb > s.starts) mc::fail("%s(%s): stop callback ran %d times", a, b, s.cb); }
      else SAME(cb, 0);
    }
#undef SAME
  }
  template <int I>
  void one(bool stop, h::mode m)
  {
    using A = cat::ad<I>;
    seen  s;
    h::rec r;
    {
      typename A::state       st;
      ex::inplace_stop_source src;
      h::go(A::wrap(probe{&s, stop ? &src : nullptr, m}, st), r, env{src.get_token()});
      mc::join_all();
    }
    MC_CHECK(r.n == 1);
    verify(s, A::mask, stop, A::name, "");
  }
  template <int I, int J>
  void two(bool stop, h::mode m)
  {
    using A = cat::ad<I>;
    using B = cat::ad<J>;
    if constexpr (cat::nestable(A::mask, B::mask))
    {
      seen  s;
      h::rec r;
      {
        typename B::state       sb;
        typename A::state       sa;
        ex::inplace_stop_source src;
        h::go(A::wrap(B::wrap(probe{&s, stop ? &src : nullptr, m}, sb), sa), r, env{src.get_token()});
        mc::join_all();
      }
      MC_CHECK(r.n == 1);
      verify(s, A::mask | B::mask, stop, A::name, B::name);
    }
  }
  constexpr bool inner(int j) { return MC_THOROUGH || j % 4 == 1; }
  template <int I> void row()
  {
    int  n = mc::choose(cat::count + 1, "inner adaptor");
    bool stop = mc::choose(2, "stop");
    auto m = h::pick_mode();
    if (n == cat::count) return one<I>(stop, m);
    auto call = [&]<int J>(std::integral_constant<int, J>) { if constexpr (inner(J)) two<I, J>(stop, m); };
    [&]<int... J>(std::integer_sequence<int, J...>) { ((J == n ? call(std::integral_constant<int, J>{}) : void()), ...); }(std::make_integer_sequence<int, cat::count>{});
  }
  // a stop request made by the receiver reaches the sender that is running (and only completes when it is stopped),
  // whenever it is made
  template <int I> void stop_row()
  {
    using A = cat::ad<I>;
    if constexpr (!(A::mask & cat::STOP_NONE))
    {
      h::rec  r;
      h::gate g(1);
      int     stops = 0, started = 0;
      for (auto& x: h::ssrc_state) x.store(0, std::memory_order_relaxed);
      {
        typename A::state       st;
        ex::inplace_stop_source src;
        std::thread             t([&] { src.request_stop(); });
        h::go(A::wrap(h::ssrc(h::NONE, 1, 0, &stops, &started), st), r, g, env{src.get_token()});
        g.wait();
        t.join();
        mc::join_all();
      }
      if (stops != started) mc::fail("%s: %d of %d running senders saw the stop request", A::name, stops, started);
      auto x = A::map({h::STOP, 0});
      MC_CHECK(r.n == 1 && r.ch == x.ch);
    }
  }
  template <int I> struct reg
  {
    mc::registrar r{"P29", (new std::string(std::string("nest_") + cat::ad<I>::name))->c_str(), +[] { row<I>(); }, {.preempt = cat::ad<I>::mask & cat::DETACHED ? 2 : -1}, {.preempt = cat::ad<I>::mask & cat::DETACHED ? 4 : -1}};
    mc::registrar t{"P29", (new std::string(std::string("stop_") + cat::ad<I>::name))->c_str(), +[] { stop_row<I>(); }, {.preempt = 4}, {.preempt = -1}};
  };
  template <int I> constexpr bool mine = I % MC_PARTS == MC_PART;
  template <int... I> int regs(std::integer_sequence<int, I...>)
  {
    ([] { if constexpr (mine<I>) static reg<I> r; }(), ...);
    return 0;
  }
  int all = regs(std::make_integer_sequence<int, cat::count>{});
}

#if MC_PART == 0
// the documented overrides
namespace
{
  template <class S> seen look(S (*mk)(probe), bool stop = false)
  {
    seen   s;
    h::rec r;
    ex::inplace_stop_source src;
    h::go(mk(probe{&s, stop ? &src : nullptr, h::INLINE}), r, env{src.get_token()});
    MC_CHECK(r.is(h::VAL, 7) && s.starts == 1);
    return s;
  }
}
MC_SCENARIO(P29, override_write_env, {.preempt = -1})
{
  auto s = look(+[](probe p) { return ex::write_env(p, ex::prop{tag_t{}, 50}); });
  MC_CHECK(s.tag == 50 && s.tag_late == 50 && s.tag2 == 42 && s.al == 10 && s.start == 7 && s.sched == 8 && s.deleg == 9);
  // the innermost one wins, the others still shine through
  s = look(+[](probe p) { return ex::write_env(ex::write_env(p, ex::prop{tag_t{}, 51}), ex::env{ex::prop{tag_t{}, 50}, ex::prop{tag2_t{}, 52}}); });
  MC_CHECK(s.tag == 51 && s.tag2 == 52 && s.al == 10);
  s = look(+[](probe p) { return ex::write_env(p, ex::env{ex::prop{tag_t{}, 60}, ex::prop{tag_t{}, 61}}); });
  MC_CHECK(s.tag == 60);
  // a stop token written into the environment replaces the receiver's
  s = look(+[](probe p) { return ex::write_env(p, ex::prop{ex::get_stop_token, ex::never_stop_token{}}); }, true);
  MC_CHECK(!s.stop_after && s.cb == 0);
}
MC_SCENARIO(P29, override_unstoppable, {.preempt = -1})
{
  auto s = look(+[](probe p) { return ex::unstoppable(p); }, true);
  MC_CHECK(!s.stop_after && !s.late_after && s.cb == 0 && s.tag == 42 && s.start == 7);
  // but what surrounds it stays stoppable
  s = look(+[](probe p) { return ex::unstoppable(ex::just(1)) | ex::let_value([p](int) { return p; }); }, true);
  MC_CHECK(s.stop_after && s.cb == 1);
}
MC_SCENARIO(P29, override_scheduler, {.preempt = -1})
{
  auto s = look(+[](probe p) { return ex::starts_on(isched{70}, p); });
  MC_CHECK(s.start == 70 && s.tag == 42 && s.al == 10);
  s = look(+[](probe p) { return ex::on(isched{71}, p); });
  MC_CHECK(s.start == 71 && s.tag == 42);
  s = look(+[](probe p) { return ex::on(isched{72}, ex::just()) | ex::let_value([p] { return p; }); });
  MC_CHECK(s.start == 7);
  s = look(+[](probe p) { return ex::schedule(isched{73}) | ex::let_value([p] { return p; }); });
  MC_CHECK(s.start == 73 && s.tag == 42 && s.al == 10);
}
// read_env and the algorithms' own environments
MC_SCENARIO(P29, read_env, {.preempt = -1})
{
  ex::inplace_stop_source src;
  h::rec r[4];
  h::go(ex::read_env(tag_t{}), r[0], env{src.get_token()});
  h::go(ex::read_env(ex::get_start_scheduler) | ex::then([](isched s) noexcept { return s.id; }), r[1], env{src.get_token()});
  h::go(ex::just(1) | ex::let_value([](int x) { return ex::when_all(ex::just(x), ex::read_env(tag2_t{})); }), r[2], env{src.get_token()});
  h::go(ex::write_env(ex::read_env(tag_t{}), ex::prop{tag_t{}, 99}), r[3], env{src.get_token()});
  MC_CHECK(r[0].is(h::VAL, 42) && r[1].is(h::VAL, 7) && r[2].is(h::VAL, 1, 42) && r[3].is(h::VAL, 99));
}
#endif
