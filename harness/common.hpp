// Shared pieces of the model-checking harnesses.
#pragma once
#include "mc.h"
#include <stdexec/execution.hpp>
#include <atomic>
#include <cstdio>
#include <exception>
#include <memory>
#include <optional>
#include <string>
#include <system_error>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>

namespace ex = stdexec;

#ifndef H_FAULTS
#  define H_FAULTS 0  // 1: moves of tv and the functions of the catalogue can be made to throw
#endif

namespace h
{
  // ---------------------------------------------------------------------------------------------
  // A value with an owned heap cell: leaks, double destruction, use after destruction and use of a
  // moved-from object all become visible to the checker.  Copies/moves can be made to throw.
#if H_FAULTS
  inline struct
  {
    operator long() const { return mc::ctr(63); }
    void operator=(long k) const { mc::ctr(63) = k; }
  } const throw_at;
  inline thread_local int quiet_depth = 0;
  inline bool tick() { return !quiet_depth && mc::ctr(63) > 0 && --mc::ctr(63) == 0; }
#else
  inline int  throw_at  = 0;  // k>0: the k-th throwing-capable copy/move from now throws
  inline bool tick() { return throw_at > 0 && --throw_at == 0; }
#endif
  struct boom { int tag = 77; };
  inline void maybe() noexcept(!H_FAULTS) { if (H_FAULTS && tick()) throw boom{}; }
  // no faults are injected while one of these is alive
  struct quiet
  {
#if H_FAULTS
    long a = mc::fail_alloc(0);
    quiet() { ++quiet_depth; }
    ~quiet() { --quiet_depth; mc::fail_alloc(a); }
#else
    quiet() {}
    ~quiet() {}
#endif
    quiet(quiet const &) = delete;
  };

  struct tv
  {
    int* p;
    explicit tv(int v = 0) : p(nullptr) { quiet q; p = new int(v); }
    tv(tv const & o) : p(nullptr)
    {
      if (tick()) throw boom{};
      if (!o.p) mc::fail("copy of a moved-from value");
      quiet q;
      p = new int(*o.p);
    }
    tv(tv&& o) noexcept(!H_FAULTS) : p(nullptr)
    {
      if (H_FAULTS && tick()) throw boom{};
      p = std::exchange(o.p, nullptr);
    }
    tv& operator=(tv o) noexcept(!H_FAULTS) { std::swap(p, o.p); return *this; }
    ~tv() { delete p; }
    int get() const { if (!p) mc::fail("a moved-from value was delivered"); return *p; }
    friend bool operator==(tv const & a, tv const & b) { return a.get() == b.get(); }
  };

  // ---------------------------------------------------------------------------------------------
  // What a receiver saw.
  inline thread_local int ctx_id = 0;  // which execution context the current thread represents
  enum chan { NONE = 0, VAL = 1, ERR = 2, STOP = 3 };
  struct rec
  {
    int  n    = 0;      // completions delivered
    chan ch   = NONE;
    long v[8] = {};
    int  nv   = 0;
    int  tid  = -1;
    int  ctx  = -1;
    int const * need  = nullptr;  // plain flags which must all be set (and visible) at completion
    int         nneed = 0;
    int const * zero  = nullptr;  // plain counter which must be 0 (and visible) at completion
    void (*at)(void*) = nullptr;  // called at completion
    void* at_arg      = nullptr;
    bool is(chan c) const { return n == 1 && ch == c; }
    bool is(chan c, long a) const { return n == 1 && ch == c && nv == 1 && v[0] == a; }
    bool is(chan c, long a, long b) const { return n == 1 && ch == c && nv == 2 && v[0] == a && v[1] == b; }
    void push(long x) { if (nv < 8) v[nv++] = x; }
    void hit(chan c)
    {
      ++n;
      if (n > 1) mc::fail("second completion delivered to a receiver (first on channel %d, now %d)", ch, c);
      for (int i = 0; i < nneed; ++i)
        if (!need[i]) mc::fail("completed before child %d had completed", i);
      if (zero && *zero) mc::fail("completed while %d child operation(s) were still alive", *zero);
      ch = c;
      tid = mc::self();
      ctx = ctx_id;
      if (at) at(at_arg);
    }
    std::string str() const
    {
      std::string s = ch == NONE ? "none" : ch == VAL ? "v" : ch == ERR ? "e" : "s";
      for (int i = 0; i < nv; ++i) { s += (i ? "," : ":"); s += std::to_string(v[i]); }
      return s;
    }
  };

  inline long decode(std::exception_ptr const & e)
  {
    if (!e) mc::fail("null exception_ptr delivered");
    try { std::rethrow_exception(e); }
    catch (boom const & b) { return 1000 + b.tag; }
    catch (int i) { return i; }
    catch (std::bad_alloc const &) { return 1500; }
    catch (std::system_error const & s) { return 2000 + s.code().value(); }
    catch (std::exception const &) { return 1600; }
    catch (...) { return 1700; }
  }
  inline long conv(tv const & t) { return t.get(); }
  inline long conv(std::exception_ptr const & e) { return decode(e); }
  inline long conv(std::error_code const & e) { return 2000 + e.value(); }
  inline long conv(boom const & b) { return 1000 + b.tag; }
  inline long conv(std::monostate) { return -5; }
  template <class T> requires std::is_arithmetic_v<T> || std::is_enum_v<T>
  long conv(T const & t) { return long(t); }
  template <class T> long conv(std::optional<T> const & o) { return o ? conv(*o) : -7; }
  inline void put(rec& r) { (void) r; }
  template <class T> void put1(rec& r, T const & t) { r.push(conv(t)); }
  template <class... Ts> void put1(rec& r, std::tuple<Ts...> const & t) { std::apply([&](auto const &... a) { (put1(r, a), ...); }, t); }
  // variants: 100 + number of elements of a tuple alternative (the order of alternatives is not documented), or 99
  template <class T> struct tcode { static constexpr long value = 99; };
  template <class... Ts> struct tcode<std::tuple<Ts...>> { static constexpr long value = 100 + long(sizeof...(Ts)); };
  template <class... Ts> void put1(rec& r, std::variant<Ts...> const & t)
  {
    if (t.valueless_by_exception()) mc::fail("a valueless variant was delivered");
    std::visit([&]<class T>(T const & a) { r.push(tcode<T>::value); put1(r, a); }, t);
  }

  // ---------------------------------------------------------------------------------------------
  // Operation states on the heap whose receiver destroys them in its completion (unless autodel=false).
  struct no_env {};

  template <class S, class Env = no_env>
  struct box;

  // Completions a sender declares for its receiver's environment, up to decay of the arguments.
  template <class... Ts> struct sig_id { static inline char id = 0; };
  template <class T> struct sig_of;
  template <class Tag, class... As> struct sig_of<Tag(As...)> { static void const * id() { return &sig_id<Tag, std::decay_t<As>...>::id; } };
  template <class L> struct sig_list { static bool has(void const *) { return true; } };
  template <class... Sigs> struct sig_list<ex::completion_signatures<Sigs...>>
  {
    static bool has(void const * p) { return ((sig_of<Sigs>::id() == p) || ...); }
  };

  template <class Env>
  struct box_link
  {
    rec*  r;
    Env   env;
    bool  autodel;
    void* self;
    void (*del)(void*) noexcept;
    void (*then)(void*) noexcept;  // optional continuation after recording (and after deletion)
    void* then_arg;
    bool (*declared)(void const *) = nullptr;
    template <class... Ts> void need_declared() const
    {
      if (declared && !declared(&sig_id<Ts...>::id)) mc::fail("an undeclared completion was delivered: %s", __PRETTY_FUNCTION__);
    }
    void done() noexcept
    {
      auto t = then;
      auto a = then_arg;
      if (autodel) del(self);
      if (t) t(a);
    }
  };

  template <class Env>
  struct rcvr
  {
    using receiver_concept = ex::receiver_t;
    box_link<Env>* l;
    template <class... A>
    void set_value(A&&... a) noexcept
    {
      quiet q;
      l->template need_declared<ex::set_value_t, std::decay_t<A>...>();
      l->r->hit(VAL);
      { auto sink = [&](auto&& x) { auto y = static_cast<decltype(x)>(x); put1(*l->r, y); };  (sink(static_cast<A&&>(a)), ...); }
      l->done();
    }
    template <class E>
    void set_error(E&& e) noexcept
    {
      quiet q;
      l->template need_declared<ex::set_error_t, std::decay_t<E>>();
      l->r->hit(ERR);
      { auto y = static_cast<E&&>(e); put1(*l->r, y); }
      l->done();
    }
    void set_stopped() noexcept
    {
      l->template need_declared<ex::set_stopped_t>();
      l->r->hit(STOP);
      l->done();
    }
    Env const & get_env() const noexcept { return l->env; }
  };

  template <class S, class Env>
  struct box
  {
    box_link<Env>                             link;
    ex::connect_result_t<S, rcvr<Env>>        op;
#if H_FAULTS
    static void* operator new(std::size_t n) { quiet q; return ::operator new(n); }
    static void  operator delete(void* p) { ::operator delete(p); }
#endif
    box(S&& s, rec* r, Env e, bool autodel)
      : link{r, std::move(e), autodel, this, [](void* p) noexcept { delete static_cast<box*>(p); }, nullptr, nullptr, &sig_list<ex::completion_signatures_of_t<S, Env>>::has}
      , op(ex::connect(static_cast<S&&>(s), rcvr<Env>{&link}))
    {}
    void start() noexcept { ex::start(op); }
  };

  // connect on the heap
  template <class S, class Env = no_env>
  box<S, Env>* make(S s, rec& r, Env e = {}, bool autodel = true)
  {
    return new box<S, Env>(std::move(s), &r, std::move(e), autodel);
  }
  // connect and start; the operation deletes itself on completion
  template <class S, class Env = no_env>
  void go(S s, rec& r, Env e = {})
  {
    make<S, Env>(std::move(s), r, std::move(e))->start();
  }

  // Counts completions down; wait() returns, synchronized with them, once all arrived.
  struct gate
  {
    std::atomic<int> left;
    explicit gate(int n = 1) : left(n) {}
    void done() noexcept { if (left.fetch_sub(1) == 1) left.notify_all(); }
    void wait() noexcept
    {
      for (int v; (v = left.load()) > 0;) left.wait(v);
    }
  };
  // like go, and then reports to the gate (after the operation was destroyed)
  template <class S, class Env = no_env>
  void go(S s, rec& r, gate& g, Env e = {})
  {
    auto* b = make<S, Env>(std::move(s), r, std::move(e));
    b->link.then = [](void* p) noexcept { static_cast<gate*>(p)->done(); };
    b->link.then_arg = &g;
    b->start();
  }

  // environment with an inplace stop token
  struct stop_env
  {
    ex::inplace_stop_token tok;
    ex::inplace_stop_token query(ex::get_stop_token_t) const noexcept { return tok; }
  };

  // environment with a start scheduler
  template <class S>
  struct sched_env
  {
    S s;
    S query(ex::get_start_scheduler_t) const noexcept { return s; }
    S query(ex::get_scheduler_t) const noexcept { return s; }
  };

  // ---------------------------------------------------------------------------------------------
  // Sources under the harness' control.
  //   kind: which channel; mode: completes inline in start(), or on a fresh thread.
  enum mode { INLINE = 0, REMOTE = 1 };
  template <class... Sigs>
  struct src_
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures<Sigs...>;
  };


  // something that has to be destroyed exactly once (otherwise a leak, or a double free)
  struct life
  {
    int* p;
    life() : p(nullptr) { quiet q; p = new int(1); }
    life(life&&) = delete;
    ~life() { delete p; }
  };

  // completes with set_value(tv(val)) / set_error(tv...)-like int / set_stopped
  struct src
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures<ex::set_value_t(tv), ex::set_error_t(int), ex::set_stopped_t()>;
    chan ch;
    int  val;
    mode m = INLINE;
    int* started = nullptr;
    int  ctx = 0;  // ctx_id of the completing thread when REMOTE
    int* done = nullptr;  // plain flag set right before completing

    template <class R>
    struct op
    {
      R    r;
      chan ch;
      int  val;
      mode m;
      int* started;
      int  ctx;
      int* done;
      bool was = false;
      life alive;
      std::optional<tv> own;
      op(R rr, src const & s) : r(std::move(rr)), ch(s.ch), val(s.val), m(s.m), started(s.started), ctx(s.ctx), done(s.done) {}
      op(op&&) = delete;
      void finish() noexcept
      {
        if (done) *done = 1;
        switch (ch)
        {
        case VAL: own.emplace(val); ex::set_value(std::move(r), std::move(*own)); break;  // like just: the results live in *this
        case ERR: ex::set_error(std::move(r), std::move(val)); break;
        default: ex::set_stopped(std::move(r)); break;
        }
      }
      void start() & noexcept
      {
        if (was) mc::fail("operation started twice");
        was = true;
        if (started) ++*started;
        if (m == INLINE) finish();
        else
          {
          quiet q;
          std::thread([this, c = ctx] { ctx_id = c; finish(); }).detach();
        }
      }
    };
    template <class R>
    auto connect(R r) const -> op<R> { return op<R>(std::move(r), *this); }
  };

  // A stop-aware source.  It completes with `ch` from another thread (or never, if ch == NONE) unless a stop
  // request arrives first, in which case it completes with set_stopped from the requesting thread.
  inline std::atomic<int> ssrc_state[16];
  struct ssrc_data
  {
    chan ch;
    int  val;
    int  slot;             // index into ssrc_state, unique per operation
    int* stops = nullptr;  // incremented when the stop request was seen
    int* started = nullptr;
    int* done = nullptr;   // plain flag set right before completing
  };
  struct ssrc : ssrc_data
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures<ex::set_value_t(tv), ex::set_error_t(int), ex::set_stopped_t()>;
    ssrc(chan c, int v, int sl, int* st = nullptr, int* sd = nullptr, int* dn = nullptr) : ssrc_data{c, v, sl, st, sd, dn} {}

    template <class R>
    struct op
    {
      struct on_stop
      {
        op* o;
        void operator()() noexcept { o->stop_cb(); }
      };
      using tok_t = ex::stop_token_of_t<ex::env_of_t<R>>;
      using cb_t  = ex::stop_callback_for_t<tok_t, on_stop>;
      R                   r;
      ssrc_data           s;
      std::optional<cb_t> cb;
      life                alive;
      op(R rr, ssrc const & x) : r(std::move(rr)), s(x) {}
      op(op&&) = delete;
      std::atomic<int>& st() { return ssrc_state[s.slot]; }
      void stop_cb() noexcept
      {
        if (s.stops) ++*s.stops;
        auto& a = st();
        int   e = 0;
        if (a.compare_exchange_strong(e, 2)) return;  // start() finishes
        e = 1;
        if (a.compare_exchange_strong(e, 3))
        {
          cb.reset();
          if (s.done) *s.done = 1;
          ex::set_stopped(std::move(r));
        }
      }
      void start() & noexcept
      {
        if (s.started) ++*s.started;
        cb.emplace(ex::get_stop_token(ex::get_env(r)), on_stop{this});
        int   e = 0;
        auto& a = st();
        chan  ch = s.ch;
        auto* self = this;
        if (!a.compare_exchange_strong(e, 1))
        {
          cb.reset();
          if (s.done) *s.done = 1;
          ex::set_stopped(std::move(r));
          return;
        }
        // from here on *this may be gone
        if (ch != NONE)
          std::thread([self, &a] {
            int e = 1;
            if (a.compare_exchange_strong(e, 3))
            {
              self->cb.reset();
              if (self->s.done) *self->s.done = 1;
              switch (self->s.ch)
              {
              case VAL: ex::set_value(std::move(self->r), tv(self->s.val)); break;
              case ERR: ex::set_error(std::move(self->r), int(self->s.val)); break;
              default: ex::set_stopped(std::move(self->r)); break;
              }
            }
          }).detach();
      }
    };
    template <class R>
    auto connect(R r) const -> op<R> { return op<R>(std::move(r), *this); }
  };

  inline chan pick_chan() { return chan(1 + mc::choose(3, "channel")); }
  inline mode pick_mode() { return mode(mc::choose(2, "mode")); }

  // A scheduler whose operations run on a fresh thread labelled with ctx id; outcome selectable.
  struct thread_sched
  {
    int  id = 1;
    chan ch = VAL;
    struct snd
    {
      using sender_concept = ex::sender_t;
      using completion_signatures = ex::completion_signatures<ex::set_value_t(), ex::set_error_t(int), ex::set_stopped_t()>;
      int  id;
      chan ch;
      template <class R>
      struct op
      {
        R    r;
        int  id;
        chan ch;
        life alive;
        op(R rr, int i, chan c) : r(std::move(rr)), id(i), ch(c) {}
        op(op&&) = delete;
        void start() & noexcept
        {
          quiet q;
          std::thread([this] {
            ctx_id = id;
            switch (ch)
            {
            case VAL: ex::set_value(std::move(r)); break;
            case ERR: ex::set_error(std::move(r), 500 + id); break;
            default: ex::set_stopped(std::move(r)); break;
            }
          }).detach();
        }
      };
      template <class R> auto connect(R r) const -> op<R> { return op<R>(std::move(r), id, ch); }
      struct env
      {
        int  id;
        chan ch;
        template <class T, class... As>
        thread_sched query(ex::get_completion_scheduler_t<T>, As const &...) const noexcept { return thread_sched{id, ch}; }
      };
      env get_env() const noexcept { return env{id, ch}; }
    };
    snd schedule() const noexcept { return snd{id, ch}; }
    bool operator==(thread_sched const &) const noexcept = default;
    using scheduler_concept = ex::scheduler_t;
  };
  // a sender with a given list of completion signatures whose completion function is a callable taking the receiver
  template <class F, class... Sigs>
  struct custom
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures<Sigs...>;
    F       f;
    mode m;
    template <class R>
    struct op
    {
      R r; F f; mode m;
      life alive;
      op(R rr, F ff, mode mm) : r(std::move(rr)), f(std::move(ff)), m(mm) {}
      op(op&&) = delete;
      void start() & noexcept
      {
        if (m == INLINE) f(r);
        else std::thread([this] { f(r); }).detach();
      }
    };
    template <class R> auto connect(R r) const -> op<R> { return op<R>(std::move(r), f, m); }
  };
  template <class... Sigs, class F>
  custom<F, Sigs...> make_custom(F f, mode m) { return {std::move(f), m}; }
}  // namespace h
