// P22: type erasure preserves completions, queries and ownership.
#include "common.hpp"
#include <exec/any_sender_of.hpp>
#include <exec/function.hpp>
#include <array>
using h::chan;
using h::tv;

namespace
{
  // ---------------------------------------------------------------------------------------------
  // the objects that are erased: small, large, and with a move that may throw
  long& g_live() { return mc::ctr(0); }
  template <int Pad, bool Throws>
  struct load
  {
    tv   v;
    char pad[Pad];
    explicit load(int i) : v(i) { ++g_live(); }
    load(load&& o) noexcept(!Throws) : v(std::move(o.v))
    {
      if constexpr (Throws) { if (h::tick()) { o.v = std::move(v); throw h::boom{}; } }
      ++g_live();
    }
    load(load const & o) : v(o.v)
    {
      if constexpr (Throws) if (h::tick()) throw h::boom{};
      ++g_live();
    }
    load& operator=(load&&) = default;
    load& operator=(load const &) = default;
    ~load() { --g_live(); }
  };
  using small = load<1, false>;
  using large = load<64, false>;
  using risky = load<1, true>;
  static_assert(std::is_nothrow_move_constructible_v<small> && !std::is_nothrow_move_constructible_v<risky>);

  // a sender that delivers its load
  template <class L>
  struct lsnd
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures<ex::set_value_t(tv), ex::set_error_t(int), ex::set_stopped_t()>;
    L       l;
    chan    c;
    h::mode m;
    lsnd(int i, chan cc = h::VAL, h::mode mm = h::INLINE) : l(i), c(cc), m(mm) {}
    template <class R>
    struct op
    {
      R r; L l; chan c; h::mode m;
      op(R rr, L ll, chan cc, h::mode mm) : r(std::move(rr)), l(std::move(ll)), c(cc), m(mm) {}
      op(op&&) = delete;
      void finish() noexcept
      {
        if (c == h::VAL) ex::set_value(std::move(r), std::move(l.v));
        else if (c == h::ERR) ex::set_error(std::move(r), int(l.v.get()));
        else ex::set_stopped(std::move(r));
      }
      void start() & noexcept
      {
        if (m == h::INLINE) finish();
        else { h::quiet q; std::thread([this] { finish(); }).detach(); }
      }
    };
    template <class R> auto connect(R r) && -> op<R> { return op<R>(std::move(r), std::move(l), c, m); }
    template <class R> auto connect(R r) const & -> op<R> { return op<R>(std::move(r), l, c, m); }
  };
  using sigs = ex::completion_signatures<ex::set_value_t(tv), ex::set_error_t(int), ex::set_stopped_t()>;
  using ar = exec::any_receiver<sigs>;
  using as = exec::any_sender<ar>;
  as make_as(int kind, int v)
  {
    switch (kind)
    {
    case 0: return lsnd<small>(v);
    case 1: return lsnd<large>(v);
    default: return lsnd<risky>(v);
    }
  }

  // a receiver with an environment, without any check of what the sender declares
  template <class Env>
  struct raw
  {
    using receiver_concept = ex::receiver_t;
    h::rec*   r;
    Env       e;
    h::gate*  g = nullptr;
    void done() noexcept { if (g) g->done(); }
    void set_value(tv v) && noexcept { auto* x = g; r->hit(h::VAL); r->push(v.get()); if (x) x->done(); }
    void set_error(int v) && noexcept { auto* x = g; r->hit(h::ERR); r->push(v); if (x) x->done(); }
    void set_stopped() && noexcept { auto* x = g; r->hit(h::STOP); if (x) x->done(); }
    Env const & get_env() const noexcept { return e; }
  };

  // every history of moves, assignments, swaps and connections of two erased senders
  struct slot
  {
    std::optional<as> w;
    int               v = -1;  // what the model says it holds; -1: moved-from
  };
  template <class S>
  void use(S& s)
  {
    if (!s.w || s.v < 0) return;
    h::rec r;
    h::go(std::move(*s.w), r);
    MC_CHECK(r.is(h::VAL, s.v));
    s.w.reset();
    s.v = -1;
  }
  void history(int depth)
  {
    {
      slot s[2];
      for (int i = 0; i < depth; ++i)
      {
        int   a = mc::choose(2, "slot");
        slot& x = s[a];
        slot& y = s[1 - a];
        switch (mc::choose(8, "make small, large, risky; move construct, move assign, swap, destroy, connect"))
        {
        case 0: x.w.emplace(make_as(0, x.v = 10 * i)); break;
        case 1: x.w.emplace(make_as(1, x.v = 10 * i + 1)); break;
        case 2: x.w.emplace(make_as(2, x.v = 10 * i + 2)); break;
        case 3:
          if (!y.w) mc::discard();
          x.w.emplace(std::move(*y.w));
          x.v = std::exchange(y.v, -1);
          break;
        case 4:
          if (!y.w || !x.w) mc::discard();
          *x.w = std::move(*y.w);
          x.v = std::exchange(y.v, -1);
          break;
        case 5:
          if (!y.w || !x.w || a) mc::discard();
          swap(*x.w, *y.w);
          std::swap(x.v, y.v);
          break;
        case 6:
          if (!x.w) mc::discard();
          x.w.reset();
          x.v = -1;
          break;
        default:
          if (!x.w || x.v < 0) mc::discard();
          use(x);
        }
        MC_CHECK(g_live() == (s[0].v >= 0) + (s[1].v >= 0));
      }
      use(s[0]);
      use(s[1]);
    }
    MC_CHECK(g_live() == 0);
  }
  mc::registrar h1{"P22", "sender_histories", +[] { history(4); }, {.preempt = -1}};
  mc::registrar h2{"P22", "sender_histories_5", +[] { if (MC_THOROUGH) history(5); else mc::discard(); }, {.preempt = -1}, {.preempt = -1}};

  // ... and of receivers
  struct lrec
  {
    using receiver_concept = ex::receiver_t;
    h::rec* r;
    void set_value(tv v) && noexcept { r->hit(h::VAL); r->push(v.get()); }
    void set_error(int v) && noexcept { r->hit(h::ERR); r->push(v); }
    void set_stopped() && noexcept { r->hit(h::STOP); }
  };
  template <class L>
  struct lrcvr : lrec
  {
    L l;
    lrcvr(h::rec* r, int i) : lrec{r}, l(i) {}
    void set_value(tv v) && noexcept { r->push(l.v.get()); std::move(static_cast<lrec&>(*this)).set_value(std::move(v)); }
  };
  void receivers()
  {
    h::rec r;
    {
      int k = mc::choose(2, "kind");
      ar  a = k == 0 ? ar(lrcvr<small>(&r, 3)) : ar(lrcvr<large>(&r, 3));
      ar  b(std::move(a));
      h::rec r2;
      int    how = mc::choose(3, "keep, move assign, swap");
      ar     c = mc::choose(2, "other kind") ? ar(lrcvr<large>(&r2, 4)) : ar(lrcvr<small>(&r2, 4));
      if (how == 1) c = std::move(b);
      if (how == 2) swap(b, c);
      MC_CHECK(g_live() == (how == 1 ? 1 : 2));
      ar&  x = how ? c : b;
      chan ch = h::pick_chan();
      if (ch == h::VAL) ex::set_value(std::move(x), tv(7));
      else if (ch == h::ERR) ex::set_error(std::move(x), 7);
      else ex::set_stopped(std::move(x));
      MC_CHECK(ch == h::VAL ? r.is(h::VAL, 3, 7) : ch == h::ERR ? r.is(h::ERR, 7) : r.is(h::STOP));
      MC_CHECK(r2.n == 0);
      if (how == 2) { ex::set_stopped(std::move(b)); MC_CHECK(r2.is(h::STOP)); }
    }
    MC_CHECK(g_live() == 0);
  }
  mc::registrar h3{"P22", "receiver_histories", receivers, {.preempt = -1}};

  // ---------------------------------------------------------------------------------------------
  // schedulers: copies are equal, and only copies
  template <class L>
  struct lsched
  {
    L l;
    explicit lsched(int i) : l(i) {}
    struct snd
    {
      using sender_concept = ex::sender_t;
      using completion_signatures = ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>;
      int id;
      template <class R>
      struct op
      {
        R r; int id;
        op(R rr, int i) : r(std::move(rr)), id(i) {}
        op(op&&) = delete;
        void start() & noexcept { h::quiet q; std::thread([this] { h::ctx_id = id; ex::set_value(std::move(r)); }).detach(); }
      };
      template <class R> auto connect(R r) const -> op<R> { return op<R>(std::move(r), id); }
      struct env
      {
        int id;
        template <class... As> lsched query(ex::get_completion_scheduler_t<ex::set_value_t>, As const &...) const noexcept { return lsched(id); }
      };
      env get_env() const noexcept { return env{id}; }
    };
    snd schedule() const noexcept { return snd{l.v.get()}; }
    bool operator==(lsched const & o) const noexcept { return l.v == o.l.v; }
    using scheduler_concept = ex::scheduler_t;
  };
  using vsigs = ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>;
  using ash = exec::any_scheduler<exec::any_sender<exec::any_receiver<vsigs>>>;
  ash make_ash(int k, int v)
  {
    if (k == 0) return ash(lsched<small>(v));
    return ash(lsched<large>(v));
  }
  void sched_history(int depth)
  {
    {
      ash s[2];
      int kind[2] = {-1, -1}, val[2] = {};
      auto set = [&](int a, int k, int v) { kind[a] = k; val[a] = v; };
      for (int i = 0; i < depth; ++i)
      {
        int a = mc::choose(2, "slot"), b = 1 - a;
        switch (mc::choose(8, "assign small, large, another small, another large; copy, move, swap, clear"))
        {
        case 0: s[a] = make_ash(0, 1); set(a, 0, 1); break;
        case 1: s[a] = make_ash(1, 1); set(a, 1, 1); break;
        case 2: s[a] = make_ash(0, 2); set(a, 0, 2); break;
        case 3: s[a] = make_ash(1, 2); set(a, 1, 2); break;
        case 4: s[a] = s[b]; set(a, kind[b], val[b]); break;
        case 5: s[a] = std::move(s[b]); set(a, kind[b], val[b]); kind[b] = -1; break;
        case 6: if (a) mc::discard(); swap(s[a], s[b]); std::swap(kind[a], kind[b]); std::swap(val[a], val[b]); break;
        default: s[a] = ash(); kind[a] = -1;
        }
        MC_CHECK(g_live() == (kind[0] >= 0) + (kind[1] >= 0));
        bool eq = kind[0] == kind[1] && (kind[0] < 0 || val[0] == val[1]);
        MC_CHECK((s[0] == s[1]) == eq && (s[1] == s[0]) == eq);
      }
      for (int a = 0; a < 2; ++a)
        if (kind[a] >= 0)
        {
          ash c(s[a]);
          MC_CHECK(c == s[a]);
          auto snd = ex::schedule(c);
          MC_CHECK(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(snd)) == s[a]);
          h::rec r;
          h::go(std::move(snd), r);
          mc::join_all();
          MC_CHECK(r.is(h::VAL) && r.ctx == val[a]);
        }
    }
    MC_CHECK(g_live() == 0);
  }
  mc::registrar h4{"P22", "scheduler_histories", +[] { sched_history(3); }, {.preempt = -1}};
  mc::registrar h5{"P22", "scheduler_histories_4", +[] { if (MC_THOROUGH) sched_history(4); else mc::discard(); }, {.preempt = -1}, {.preempt = -1}};

  // ---------------------------------------------------------------------------------------------
  // an operation that throws: the exception comes out, nothing leaks, nothing is destroyed twice
  void faults()
  {
    {
      int  op = mc::choose(8, "operation");
      long al = mc::choose(3, "failing allocation"), mv = al ? 0 : mc::choose(6, "throwing move");
      std::optional<as> a;
      ash  s, s2 = make_ash(1, 5);
      if (op >= 3) a.emplace(make_as(op == 4 ? 1 : 2, 7));
      long live = g_live();
      bool thrown = false;
      h::rec r;
      try
      {
        h::throw_at = mv;
        mc::fail_alloc(al);
        switch (op)
        {
        case 0: a.emplace(lsnd<small>(1)); break;
        case 1: a.emplace(lsnd<large>(1)); break;
        case 2: a.emplace(lsnd<risky>(1)); break;
        case 3: case 4:
        {
          auto o = ex::connect(std::move(*a), raw<ex::env<>>{&r, {}});
          h::throw_at = 0;
          mc::fail_alloc(0);
          ex::start(o);
          MC_CHECK(r.is(h::VAL, 7));
          break;
        }
        case 5: s = s2; break;
        case 6: s = ash(lsched<large>(3)); break;
        default: { ash t(s2); s = std::move(t); }
        }
      }
      catch (h::boom const &) { thrown = true; }
      catch (std::bad_alloc const &) { thrown = true; }
      h::throw_at = 0;
      mc::fail_alloc(0);
      if (!thrown && mv + al == 0) mc::outcome("ok");
      if (thrown && op < 3) MC_CHECK(!a && g_live() == live);
      if (thrown && op > 4) MC_CHECK(g_live() == live && s == ash() && s2 == make_ash(1, 5));
      mc::outcome("%d", thrown);
    }
    MC_CHECK(g_live() == 0);
  }
  mc::registrar h6{"P22", "faults", faults, {.preempt = -1}};

  // ---------------------------------------------------------------------------------------------
  // completions, queries and stop requests
  inline constexpr struct prop_t
  {
    template <class E> requires requires(E const & e) { e.query(std::declval<prop_t>()); }
    int operator()(E const & e) const noexcept { return e.query(*this); }
    static constexpr bool query(ex::forwarding_query_t) noexcept { return true; }
  } prop{};
  template <class Tok>
  struct qenv
  {
    Tok t;
    int p;
    Tok query(ex::get_stop_token_t) const noexcept { return t; }
    int query(prop_t) const noexcept { return p; }
  };
  using qs = exec::queries<ex::inplace_stop_token(ex::get_stop_token_t) noexcept, int(prop_t) noexcept>;
  using qar = exec::any_receiver<sigs, qs>;
  using qas = exec::any_sender<qar, exec::queries<int(prop_t) noexcept>>;
  // reads the property of the environment and delivers it
  struct reader
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures<ex::set_value_t(tv), ex::set_error_t(int), ex::set_stopped_t()>;
    struct env { int p; int query(prop_t) const noexcept { return p; } };
    int p;
    template <class R>
    struct op
    {
      R r;
      void start() & noexcept
      {
        int p = prop(ex::get_env(r));
        ex::set_value(std::move(r), tv(p));
      }
    };
    template <class R> auto connect(R r) const -> op<R> { return op<R>{std::move(r)}; }
    env get_env() const noexcept { return {p}; }
  };
  void queries()
  {
    ex::inplace_stop_source src;
    int                     moved = mc::choose(2, "moved");
    qas                     s(reader{42});
    MC_CHECK(prop(ex::get_env(s)) == 42);
    if (moved) { qas t(std::move(s)); s = std::move(t); }
    MC_CHECK(prop(ex::get_env(s)) == 42);
    h::rec r;
    switch (mc::choose(2, "token"))
    {
    case 0: h::go(std::move(s), r, qenv<ex::inplace_stop_token>{src.get_token(), 17}); break;
    default: h::go(std::move(s), r, qenv<ex::never_stop_token>{{}, 17});
    }
    MC_CHECK(r.is(h::VAL, 17));
  }
  mc::registrar q1{"P22", "queries", queries, {.preempt = -1}};

  struct with_prop : h::ssrc
  {
    using h::ssrc::ssrc;
    auto get_env() const noexcept { return reader::env{3}; }
  };
  template <class Tok>
  void stop(bool never)
  {
    for (auto& x : h::ssrc_state) x = 0;
    int    when = mc::choose(2, "stop: before, meanwhile");
    static int stops;
    stops = 0;
    h::rec r;
    {
      h::gate                 g;
      ex::inplace_stop_source src;
      qenv<Tok>               env{Tok{src.get_token()}, 17};
      if (when == 0) src.request_stop();
      h::go(qas(with_prop(never ? h::NONE : h::VAL, 5, 0, &stops)), r, g, env);
      if (when == 1) src.request_stop();
      g.wait();
    }
    mc::join_all();
    if (never) MC_CHECK(r.is(h::STOP) && stops == 1);
    else if (r.ch == h::STOP) MC_CHECK(r.is(h::STOP) && stops == 1);
    else MC_CHECK(r.is(h::VAL, 5));
    mc::outcome("%s", r.str().c_str());
  }
  mc::registrar s1{"P22", "stop_sender", +[] { stop<ex::inplace_stop_token>(true); }, {.preempt = -1}};
  mc::registrar s2{"P22", "stop_sender_race", +[] { stop<ex::inplace_stop_token>(false); }, {.preempt = -1}};

  // ---------------------------------------------------------------------------------------------
  // every completion, through senders of all sizes and through functions
  void channels()
  {
    {
      chan   c = h::pick_chan();
      auto   m = h::pick_mode();
      int    how = mc::choose(5, "small, large, risky, function, copied function");
      h::rec r;
      using f1 = exec::function<ex::sender_tag(tv, chan, h::mode), sigs>;
      auto body = [](tv v, chan c, h::mode m) { return lsnd<large>(v.get(), c, m); };
      switch (how)
      {
      case 0: h::go(as(lsnd<small>(5, c, m)), r); break;
      case 1: h::go(as(lsnd<large>(5, c, m)), r); break;
      case 2: h::go(as(lsnd<risky>(5, c, m)), r); break;
      case 3: h::go(f1(tv(5), std::move(c), std::move(m), body), r); break;
      default:
      {
        f1 a(tv(5), std::move(c), std::move(m), body);
        f1 b(a);
        f1 d(std::move(a));
        h::rec r2;
        h::go(b, r2);
        mc::join_all();
        MC_CHECK(c == h::VAL ? r2.is(h::VAL, 5) : c == h::ERR ? r2.is(h::ERR, 5) : r2.is(h::STOP));
        h::go(std::move(d), r);
      }
      }
      mc::join_all();
      MC_CHECK(c == h::VAL ? r.is(h::VAL, 5) : c == h::ERR ? r.is(h::ERR, 5) : r.is(h::STOP));
      mc::outcome("%s", r.str().c_str());
    }
    MC_CHECK(g_live() == 0);
  }
  mc::registrar c1{"P22", "channels", channels, {.preempt = -1}};

  // several value signatures, references and move-only values
  using S = ex::completion_signatures<ex::set_value_t(int&), ex::set_value_t(std::unique_ptr<int>, tv), ex::set_value_t(), ex::set_error_t(h::boom), ex::set_error_t(std::exception_ptr)>;
  struct shape_src
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = S;
    int k; int* p;
    template <class R>
    struct op
    {
      R r; int k; int* p;
      void start() & noexcept
      {
        switch (k)
        {
        case 0: ex::set_value(std::move(r), *p); break;
        case 1: ex::set_value(std::move(r), std::make_unique<int>(4), tv(5)); break;
        case 2: ex::set_value(std::move(r)); break;
        case 3: ex::set_error(std::move(r), h::boom{3}); break;
        default: ex::set_error(std::move(r), std::make_exception_ptr(9));
        }
      }
    };
    template <class R> auto connect(R r) const -> op<R> { return op<R>{std::move(r), k, p}; }
  };
  struct rc
  {
    using receiver_concept = ex::receiver_t;
    long* out; int* want;
    void set_value(int& x) && noexcept { *out = 10 + (&x == want); }
    void set_value(std::unique_ptr<int> p, tv v) && noexcept { *out = 20 + *p * 10 + v.get(); }
    void set_value() && noexcept { *out = 30; }
    void set_error(h::boom b) && noexcept { *out = 40 + b.tag; }
    void set_error(std::exception_ptr e) && noexcept { *out = 50 + h::decode(e); }
  };
  void shapes()
  {
    int  x = 0, k = mc::choose(5, "completion");
    long out = 0;
    if (mc::choose(2, "function"))
    {
      using F = exec::function<ex::sender_tag(int, int*), S>;
      auto op = ex::connect(F(std::move(k), &x, [](int k, int* p) { return shape_src{k, p}; }), rc{&out, &x});
      ex::start(op);
    }
    else
    {
      auto op = ex::connect(exec::any_sender<exec::any_receiver<S>>(shape_src{k, &x}), rc{&out, &x});
      ex::start(op);
    }
    long want[] = {11, 65, 30, 43, 59};
    MC_CHECK(out == want[k]);
  }
  mc::registrar c2{"P22", "shapes", shapes, {.preempt = -1}};

  // a function whose body or whose sender's connect throws, or whose allocation fails; all memory goes back
  struct arena { long out = 0, n = 0; };
  template <class T>
  struct al
  {
    using value_type = T;
    arena* a;
    explicit al(arena* x) noexcept : a(x) {}
    template <class U> al(al<U> const & o) noexcept : a(o.a) {}
    T* allocate(std::size_t n) { T* p = static_cast<T*>(::operator new(n * sizeof(T))); a->out += long(n * sizeof(T)); ++a->n; return p; }
    void deallocate(T* p, std::size_t n) noexcept { a->out -= long(n * sizeof(T)); ::operator delete(p); }
    template <class U> bool operator==(al<U> const & o) const noexcept { return a == o.a; }
  };
  struct aenv
  {
    arena* a;
    al<std::byte> query(ex::get_allocator_t) const noexcept { return al<std::byte>(a); }
  };
  struct cthrow : lsnd<large>
  {
    bool t;
    cthrow(int v, bool tt) : lsnd<large>(v), t(tt) {}
    template <class R> auto connect(R r) && -> op<R>
    {
      if (t) throw h::boom{};
      return static_cast<lsnd<large>&&>(*this).connect(std::move(r));
    }
  };
  void function_faults()
  {
    arena ar;
    {
      using F = exec::function<ex::sender_tag(tv, int), sigs>;
      int  how = mc::choose(3, "fine, body throws, connect throws");
      long alf = mc::choose(3, "failing allocation");
      F    f(tv(5), std::move(how), [](tv v, int how) {
        if (how == 1) throw h::boom{};
        return cthrow(v.get(), how == 2);
      });
      h::rec r;
      bool   thrown = false;
      try
      {
        mc::fail_alloc(alf);
        auto o = ex::connect(std::move(f), raw<aenv>{&r, {&ar}});
        mc::fail_alloc(0);
        ex::start(o);
      }
      catch (h::boom const &) { thrown = true; }
      catch (std::bad_alloc const &) { thrown = true; }
      mc::fail_alloc(0);
      if (alf == 0) MC_CHECK(thrown == (how != 0));
      if (thrown) MC_CHECK(r.n == 0); else MC_CHECK(r.is(h::VAL, 5) && ar.n == 1);
      mc::outcome("%d", thrown);
    }
    MC_CHECK(ar.out == 0 && g_live() == 0);
  }
  mc::registrar f1{"P22", "function_faults", function_faults, {.preempt = -1}};
}
