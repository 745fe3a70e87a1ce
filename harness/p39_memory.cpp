// P39: the memory that asynchronous work needs comes from the allocator its user chose, aligned for what is put there, and
// all of it goes back to that allocator, whatever becomes of the work.
// PARTS: 5
#include "common.hpp"
#include <condition_variable>
#include <exec/__frame_allocator.hpp>
#include <exec/__memory_resource_adaptor.hpp>
#include <exec/any_sender_of.hpp>
#include <exec/detail/bwos_lifo_queue.hpp>
#include <exec/ensure_started.hpp>
#include <exec/function.hpp>
#include <exec/sequence/ignore_all_values.hpp>
#include <exec/sequence/merge.hpp>
#include <exec/sequence/transform_each.hpp>
#include <exec/split.hpp>
#include <exec/start_detached.hpp>
#include <exec/static_thread_pool.hpp>
#include <memory_resource>
#include <stdexec/coroutine.hpp>

namespace
{
  // ---- what was allocated where --------------------------------------------------------------------------------------
  struct book
  {
    struct blk { char *raw, *p; std::size_t n, size, align; };
    char const*      name;
    int              fail_at = 0, allocs = 0;
    bool             failed = false;
    std::mutex       mtx;
    std::condition_variable cv;
    std::vector<blk> live;
    explicit book(char const* n) : name(n) {}
    book(book&&) = delete;
    ~book() { if (!live.empty()) mc::fail("%s: %zu block(s) never came back", name, live.size()); }
    void wait_returned() { std::unique_lock l(mtx); cv.wait(l, [&] { return live.empty(); }); }
    static constexpr std::size_t canary = 8;
    // aligned as asked for, and no better
    void* take(std::size_t n, std::size_t size, std::size_t align)
    {
      std::lock_guard l(mtx);
      if (++allocs == fail_at) { failed = true; throw std::bad_alloc(); }
      std::size_t bytes = n * size;
      char*       raw = static_cast<char*>(::operator new(bytes + 3 * align + canary));
      auto        a = reinterpret_cast<std::uintptr_t>(raw);
      a = (a + 2 * align - 1) / (2 * align) * (2 * align) + align;
      char* p = reinterpret_cast<char*>(a);
      std::memset(p + bytes, 0xa5, canary);
      live.push_back({raw, p, n, size, align});
      return p;
    }
    void give(void* q, std::size_t n, std::size_t size, std::size_t align) noexcept
    {
      std::lock_guard l(mtx);
      for (auto& b : live)
        if (b.p == q)
        {
          if (b.n * b.size != n * size || b.align != align)
            mc::fail("%s: a block of %zux%zu (aligned %zu) came back as %zux%zu (aligned %zu)", name, b.n, b.size, b.align, n, size, align);
          for (std::size_t i = 0; i < canary; ++i)
            if (b.p[n * size + i] != char(0xa5)) mc::fail("%s: something was written past the end of a block", name);
          ::operator delete(b.raw);
          b = live.back();
          live.pop_back();
          if (live.empty()) cv.notify_all();
          return;
        }
      mc::fail("%s: a block came back that was not allocated here (any more)", name);
    }
  };
  template <class T>
  struct al
  {
    using value_type = T;
    book* b;
    explicit al(book* x) noexcept : b(x) {}
    template <class U> al(al<U> const & o) noexcept : b(o.b) {}
    T* allocate(std::size_t n) { return static_cast<T*>(b->take(n, sizeof(T), alignof(T))); }
    void deallocate(T* p, std::size_t n) noexcept { b->give(p, n, sizeof(T), alignof(T)); }
    template <class U> bool operator==(al<U> const & o) const noexcept { return b == o.b; }
  };
  template <class T>
  struct fal : al<T>  // one that takes more room itself
  {
    long id = 17;
    explicit fal(book* x) noexcept : al<T>(x) {}
    template <class U> fal(fal<U> const & o) noexcept : al<T>(o), id(o.id) {}
    fal(fal const &) = default;
    template <class U> struct rebind { using other = fal<U>; };
    void deallocate(T* p, std::size_t n) noexcept
    {
      if (id != 17) mc::fail("the allocator has been overwritten");
      al<T>::deallocate(p, n);
    }
  };
  struct mr final : std::pmr::memory_resource
  {
    book* b;
    explicit mr(book* x) : b(x) {}
    void* do_allocate(std::size_t n, std::size_t a) override { return b->take(1, n, a); }
    void do_deallocate(void* p, std::size_t n, std::size_t a) override { b->give(p, 1, n, a); }
    bool do_is_equal(std::pmr::memory_resource const & o) const noexcept override { return this == &o; }
  };

  // something that has to lie at a multiple of its alignment
  template <std::size_t A>
  struct alignas(A) at
  {
    int v = 0;
    void ok() const
    {
      at const * volatile self = this;
      if (reinterpret_cast<std::uintptr_t>(self) % A) mc::fail("an object aligned to %zu lies at an address that is not", A);
    }
    at() { ok(); }
    explicit at(int x) : v(x) { ok(); }
    at(at const & o) : v(o.v) { ok(); o.ok(); }
    at(at&& o) noexcept : v(std::exchange(o.v, -1)) { ok(); o.ok(); }
    at& operator=(at const & o) = default;
    ~at() { ok(); }
  };

  // ---- the work ------------------------------------------------------------------------------------------------------
  template <std::size_t A>
  struct child
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures<ex::set_value_t(at<A>), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>;
    h::chan ch;
    h::mode m;
    bool    bad;
    int*    started;
    template <class R>
    struct op
    {
      R       r;
      child   s;
      at<A>   x{7};
      op(R rr, child c) : r(std::move(rr)), s(c) { if (s.bad) throw h::boom{}; }
      op(op&&) = delete;
      void finish() noexcept
      {
        switch (s.ch)
        {
        case h::VAL: ex::set_value(std::move(r), at<A>(x)); break;
        case h::ERR: ex::set_error(std::move(r), std::make_exception_ptr(h::boom{})); break;
        default: ex::set_stopped(std::move(r)); break;
        }
      }
      void start() & noexcept
      {
        ++*s.started;
        if (s.m == h::INLINE) finish();
        else std::thread([this] { finish(); }).detach();
      }
    };
    template <class R> auto connect(R r) const -> op<R> { return op<R>(std::move(r), *this); }
  };
  struct seen
  {
    h::gate g;
    int     n = 0;
    char    c = 0;
    int     v = -1;
  };
  template <class Env>
  struct rcvr
  {
    using receiver_concept = ex::receiver_t;
    seen* m;
    Env   e;
    void hit(char c, int v) noexcept
    {
      if (++m->n > 1) mc::fail("second completion");
      m->c = c;
      m->v = v;
      m->g.done();
    }
    template <class... As> void set_value(As&&... as) noexcept { int v = 7; ((v = num(as)), ...); hit('v', v); }
    template <std::size_t A> static int num(at<A> const & x) { return x.v; }
    static int num(int x) { return x; }
    template <class X> void set_error(X&& x) noexcept
    {
      if constexpr (std::is_same_v<std::decay_t<X>, std::exception_ptr>)
      {
        char c = 'e';
        try { std::rethrow_exception(x); } catch (std::bad_alloc const &) { c = 'm'; } catch (...) {}
        hit(c, -1);
      }
      else hit('e', -1);
    }
    void set_stopped() noexcept { hit('s', -1); }
    Env const & get_env() const noexcept { return e; }
  };
  struct env0
  {
    ex::inline_scheduler query(ex::get_scheduler_t) const noexcept { return {}; }
    ex::inline_scheduler query(ex::get_start_scheduler_t) const noexcept { return {}; }
  };
  struct env1 : env0  // get_allocator
  {
    using env0::query;
    book* b;
    explicit env1(book* x) : b(x) {}
    al<std::byte> query(ex::get_allocator_t) const noexcept { return al<std::byte>(b); }
  };
  template <class V>
  struct env2 : env1  // and get_frame_allocator
  {
    using env1::query;
    V f;
    env2(book* x, V v) : env1(x), f(v) {}
    V query(exec::get_frame_allocator_t) const noexcept { return f; }
  };
  template <class V>
  struct env3 : env0  // only get_frame_allocator
  {
    using env0::query;
    V f;
    explicit env3(V v) : f(v) {}
    V query(exec::get_frame_allocator_t) const noexcept { return f; }
  };
  // a sender whose attributes have an allocator
  template <class S>
  struct attributed
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures_of_t<S, ex::env<>>;
    S     s;
    book* b;
    attributed(S x, book* y) : s(std::move(x)), b(y) {}
    template <class R> auto connect(R r) const -> ex::connect_result_t<S, R> { return ex::connect(S(s), std::move(r)); }
    env1 get_env() const noexcept { return env1(b); }
  };
  inline char want(h::chan c) { return c == h::VAL ? 'v' : c == h::ERR ? 'e' : 's'; }
  struct stop_aware { h::gate* g; void operator()(auto&&...) const noexcept { g->done(); } };
  struct quietly { template <class... As> void operator()(As&&...) const noexcept {} };
  auto silent(auto s) { return std::move(s) | ex::then(quietly{}) | ex::upon_error(quietly{}); }

  // the work finds the allocator in its environment
  template <class S>
  struct sees
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures_of_t<S, ex::env<>>;
    S     s;
    book* b;
    sees(S x, book* y) : s(std::move(x)), b(y) {}
    template <class R> auto connect(R r) const -> ex::connect_result_t<S, R>
    {
      bool same = false;
      if constexpr (requires { ex::get_allocator(ex::get_env(r)).b; }) same = ex::get_allocator(ex::get_env(r)).b == b;
      if (!same) mc::fail("the work sees another allocator than its memory comes from");
      return ex::connect(S(s), std::move(r));
    }
  };

  struct pick
  {
    h::chan ch;
    h::mode m;
    bool    bad;
    pick() : ch(h::pick_chan()), m(h::pick_mode()), bad(mc::choose(2, "connect throws")) {}
  };

  // exactly one of: a failed allocation, a failed connect, or the work's own result
  void expect(pick const & p, book& b, int started, bool thrown_alloc, bool thrown_boom, seen const * m, int nstart = 1)
  {
    if (b.failed)
    {
      if (started) mc::fail("the allocation failed and the work was started");
      if (!thrown_alloc && !(m && m->c == 'm')) mc::fail("nobody was told that the allocation failed");
    }
    else if (p.bad)
    {
      if (started) mc::fail("connect failed and the work was started");
      if (!thrown_boom && !(m && m->c == 'e')) mc::fail("nobody was told that connect failed");
    }
    else
    {
      if (thrown_alloc || thrown_boom) mc::fail("thrown without a reason");
      if (started != nstart) mc::fail("started %d times", started);
      if (m && (m->n != 1 || m->c != want(p.ch) || (p.ch == h::VAL && m->v != 7))) mc::fail("result %c %d", m->c ? m->c : '-', m->v);
      if (b.allocs == 0) mc::fail("the allocator was not used");
    }
    mc::outcome("%d%d%c", thrown_alloc, thrown_boom, m && m->c ? m->c : '-');
  }

  template <std::size_t A> void consumers()
  {
    book mine("the chosen allocator"), other("the allocator that is not to be used");
    int  started = 0;
    bool ta = false, tb = false;
    seen m;
    bool used = false;
    int  which = mc::choose(8, "facility");
    mine.fail_at = mc::choose(3, "failing allocation");
    pick p;
    child<A> c{p.ch, p.m, p.bad, &started};
    auto guarded = [&](auto f) {
      try { f(); }
      catch (std::bad_alloc const &) { ta = true; }
      catch (h::boom const &) { tb = true; }
    };
    auto run = [&](auto s, auto e) {
      used = true;
      auto op = ex::connect(std::move(s), rcvr<decltype(e)>{&m, e});
      ex::start(op);
      m.g.wait();
    };
    auto join = [&](ex::counting_scope& sc) { h::rec r; h::gate g; h::go(sc.join(), r, g, h::sched_env<ex::inline_scheduler>{}); g.wait(); };
    switch (which)
    {
    case 0: case 1: case 2: {  // spawn: the environment's allocator, else that of the sender
      auto sc = std::make_unique<ex::counting_scope>();
      guarded([&] {
        if (which == 0) ex::spawn(silent(sees(c, &mine)), sc->get_token(), env1(&mine));
        else if (which == 1) ex::spawn(attributed(silent(sees(c, &mine)), &mine), sc->get_token());
        else ex::spawn(attributed(silent(sees(c, &mine)), &other), sc->get_token(), env1(&mine));
      });
      join(*sc);
      if (!mine.live.empty()) mc::fail("join completed before the memory of the work was returned");
      break;
    }
    case 3: case 4: {  // spawn_future, consumed or not
      auto sc = std::make_unique<ex::counting_scope>();
      int  use = mc::choose(3, "future: consumed, connected, dropped");
      guarded([&] {
        auto consume = [&](auto f) {
          if (use == 0) run(std::move(f), env1(&other));
          else if (use == 1) { auto op = ex::connect(std::move(f), rcvr<env1>{&m, env1(&other)}); (void) op; }
        };
        if (which == 3) consume(ex::spawn_future(attributed(sees(c, &mine), &other), sc->get_token(), env1(&mine)));
        else consume(ex::spawn_future(attributed(sees(c, &mine), &mine), sc->get_token()));
      });
      join(*sc);
      break;
    }
    case 5: {  // start_detached
      h::gate done;
      guarded([&] {
        exec::start_detached(c | ex::then(stop_aware{&done}) | ex::upon_error(stop_aware{&done}) | ex::upon_stopped(stop_aware{&done}), env1(&mine));
        done.wait();
      });
      mine.wait_returned();  // the memory is returned after the function has run
      break;
    }
    case 6: guarded([&] { run(exec::split(c, env1(&mine)) | ex::then([](at<A> const & x) { return x.v; }), env1(&other)); }); mine.wait_returned(); break;
    case 7: {
      int use = mc::choose(2, "future: consumed, dropped");
      guarded([&] {
        auto f = exec::ensure_started(c, env1(&mine));
        if (use == 0) run(std::move(f) | ex::then([](at<A> const & x) { return x.v; }), env1(&other));
      });
      mine.wait_returned();
      break;
    }
    }
    expect(p, mine, started, ta, tb, used && m.n ? &m : nullptr);
    MC_CHECK(other.allocs == 0);
  }
  std::conditional_t<0 == MC_PART, mc::registrar, decltype(nullptr)> c1 = [] {
    if constexpr (0 == MC_PART) return mc::registrar{"P39", "facilities_8", +[] { consumers<8>(); }, {.preempt = 1}};
    else return nullptr;
  }();
  std::conditional_t<0 == MC_PART, mc::registrar, decltype(nullptr)> c2 = [] {
    if constexpr (0 == MC_PART) return mc::registrar{"P39", "facilities_64", +[] { consumers<64>(); }, {.preempt = 1}};
    else return nullptr;
  }();

  // ---- coroutines ----------------------------------------------------------------------------------------------------
  struct task_env { using allocator_type = al<std::byte>; };
  template <class T> using tk = ex::task<T, task_env>;
  template <std::size_t N> struct filler { char x[N] = {}; };
  template <std::size_t N>
  tk<int> leaf(std::allocator_arg_t, al<char>, child<8> c, filler<N> f)
  {
    filler<N> g = f;
    auto x = co_await std::move(c);
    co_return x.v + g.x[0];
  }
  template <std::size_t N>
  tk<int> fat(std::allocator_arg_t, fal<char>, child<8> c, filler<N> f)
  {
    filler<N> g = f;
    auto x = co_await std::move(c);
    co_return x.v + g.x[0];
  }
  template <std::size_t N>
  tk<int> nest(std::allocator_arg_t, al<char>, child<8> c, book* inner)
  {
    int v = co_await leaf(std::allocator_arg, al<char>(inner), c, filler<N>{});
    auto a = co_await ex::read_env(ex::get_allocator);
    if (a.b->name[0] != 't') mc::fail("a coroutine does not see the allocator of its receiver");
    co_return v;
  }
  tk<int> plain(child<8> c)
  {
    auto x = co_await std::move(c);
    co_return x.v;
  }
  template <std::size_t N> void tasks()
  {
    book mine("frames"), inner("inner frames"), env("the receiver's allocator");
    int  started = 0;
    bool ta = false, tb = false;
    seen m;
    int  how = mc::choose(5, "leaf, nested, without, dropped, fat");
    mine.fail_at = mc::choose(2, "outer allocation fails");
    inner.fail_at = mc::choose(2, "inner allocation fails");
    env.fail_at = 0;
    pick p;
    child<8> c{p.ch, p.m, p.bad, &started};
    auto run = [&](auto s) {
      auto op = ex::connect(std::move(s), rcvr<env1>{&m, env1(&env)});
      ex::start(op);
      m.g.wait();
    };
    try
    {
      switch (how)
      {
      case 0: run(leaf(std::allocator_arg, al<char>(&mine), c, filler<N>{})); break;
      case 1: run(nest<N>(std::allocator_arg, al<char>(&mine), c, &inner)); break;
      case 2: run(plain(c)); break;
      case 4: run(fat(std::allocator_arg, fal<char>(&mine), c, filler<N>{})); break;
      case 3: {
        auto t = leaf(std::allocator_arg, al<char>(&mine), c, filler<N>{});
        if (mc::choose(2)) { auto op = ex::connect(std::move(t), rcvr<env1>{&m, env1(&env)}); (void) op; }
        break;
      }
      }
    }
    catch (std::bad_alloc const &) { ta = true; }
    catch (h::boom const &) { tb = true; }
    MC_CHECK(mine.live.empty() && inner.live.empty());
    if (mine.failed) MC_CHECK(ta && !started && m.n == 0);
    else if (how == 3) MC_CHECK(!ta && !tb && !started && m.n == 0 && mine.allocs == 1);
    else if (inner.failed) MC_CHECK(!ta && !started && m.c == 'm');
    else if (p.bad) MC_CHECK(!started && (tb || m.c == 'e'));
    else MC_CHECK(started == 1 && m.n == 1 && m.c == want(p.ch) && (p.ch != h::VAL || m.v == 7) && mine.allocs == (how != 2) && inner.allocs == (how == 1));
    mc::outcome("%d%d%c", ta, tb, m.c ? m.c : '-');
  }
  std::conditional_t<1 == MC_PART, mc::registrar, decltype(nullptr)> t1 = [] {
    if constexpr (1 == MC_PART) return mc::registrar{"P39", "tasks_small", +[] { tasks<1>(); }, {.preempt = 1}};
    else return nullptr;
  }();
  std::conditional_t<1 == MC_PART, mc::registrar, decltype(nullptr)> t2 = [] {
    if constexpr (1 == MC_PART) return mc::registrar{"P39", "tasks_odd", +[] { tasks<117>(); }, {.preempt = 1}};
    else return nullptr;
  }();

  // ---- exec::function: the frame allocator of the receiver, else its allocator, else the heap ------------------------------
  using fsigs = ex::completion_signatures<ex::set_value_t(int), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>;
  using F = exec::function<ex::sender_tag(pick const *, int*), fsigs>;
  template <std::size_t A> F make_f(pick const * p, int* started)
  {
    return F(std::move(p), std::move(started), [](pick const * p, int* s) {
      return child<A>{p->ch, p->m, p->bad, s} | ex::then([](at<A> x) noexcept { return x.v; });
    });
  }
  template <std::size_t A> F make_ff(pick const * p, int* started)
  {
    return F(std::move(p), std::move(started), [](pick const * p, int* s) { return make_f<A>(p, s); });
  }
  template <std::size_t A> void functions()
  {
    book mine("the chosen allocator"), other("the allocator that is not to be used");
    mr   res(&mine);
    int  started = 0;
    bool ta = false, tb = false;
    seen m;
    int  how = mc::choose(7, "environment"), nested = mc::choose(2, "function in a function");
    mine.fail_at = mc::choose(3, "failing allocation");
    pick p;
    auto run = [&](auto e) {
      auto op = ex::connect(nested ? make_ff<A>(&p, &started) : make_f<A>(&p, &started), rcvr<decltype(e)>{&m, e});
      ex::start(op);
      m.g.wait();
    };
    try
    {
      switch (how)
      {
      case 0: run(env1(&mine)); break;
      case 1: run(env2<al<std::byte>>(&other, al<std::byte>(&mine))); break;
      case 2: run(env2<al<int>>(&other, al<int>(&mine))); break;
      case 3: run(env3<al<double>>(al<double>(&mine))); break;
      case 4: run(env3<std::pmr::memory_resource*>(&res)); break;
      case 5: run(env3<mr*>(&res)); break;
      case 6: run(env2<std::pmr::polymorphic_allocator<std::byte>>(&other, std::pmr::polymorphic_allocator<std::byte>(&res))); break;
      }
    }
    catch (std::bad_alloc const &) { ta = true; }
    catch (h::boom const &) { tb = true; }
    expect(p, mine, started, ta, tb, m.n ? &m : nullptr);
    MC_CHECK(other.allocs == 0);
  }
  std::conditional_t<1 == MC_PART, mc::registrar, decltype(nullptr)> f1 = [] {
    if constexpr (1 == MC_PART) return mc::registrar{"P39", "functions_8", +[] { functions<8>(); }, {.preempt = 1}};
    else return nullptr;
  }();
  std::conditional_t<1 == MC_PART, mc::registrar, decltype(nullptr)> f2 = [] {
    if constexpr (1 == MC_PART) return mc::registrar{"P39", "functions_64", +[] { functions<64>(); }, {.preempt = 1}};
    else return nullptr;
  }();

  // ---- allocators and memory resources made from others: every sequence of allocations and deallocations -------------------
  template <class Get, class Put> void sequences(Get get, Put put, int steps)
  {
    struct held { void* p; std::size_t n, a; int tag; };
    std::vector<held> v;
    for (int i = 0; i < steps; ++i)
    {
      int what = mc::choose(1 + int(v.size()), "allocate, or give back one of them");
      if (what == 0)
      {
        static constexpr std::size_t ns[] = {1, 3, 8, 24, 100}, as[] = {1, 2, 8, 16, 64, 256};
        std::size_t n = ns[mc::choose(5, "size")], a = as[mc::choose(6, "alignment")];
        void*       p = get(n, a);
        if (!p) continue;
        if (reinterpret_cast<std::uintptr_t>(p) % a) mc::fail("%zu bytes aligned to %zu are not aligned", n, a);
        std::memset(p, i + 1, n);
        v.push_back({p, n, a, i + 1});
      }
      else
      {
        held x = v[what - 1];
        for (std::size_t k = 0; k < x.n; ++k) MC_CHECK(static_cast<char*>(x.p)[k] == x.tag);
        put(x.p, x.n, x.a);
        v.erase(v.begin() + (what - 1));
      }
    }
    for (auto& x : v)
    {
      for (std::size_t k = 0; k < x.n; ++k) MC_CHECK(static_cast<char*>(x.p)[k] == x.tag);
      put(x.p, x.n, x.a);
    }
  }
  void resources()
  {
    book b("the adapted allocator");
    mr   res(&b);
    int  which = mc::choose(4, "adaptor");
    b.fail_at = mc::choose(3, "failing allocation");
    auto with = [&](std::pmr::memory_resource& r) {
      sequences([&](std::size_t n, std::size_t a) -> void* { try { return r.allocate(n, a); } catch (std::bad_alloc const &) { MC_CHECK(b.failed); return nullptr; } },
                [&](void* p, std::size_t n, std::size_t a) { r.deallocate(p, n, a); }, 3);
    };
    switch (which)
    {
    case 0: { exec::__memory_resource_adaptor_t<al<std::byte>> r{al<std::byte>(&b)}; with(r); break; }
    case 1: { exec::__memory_resource_adaptor_t<al<at<64>>> r{al<at<64>>(&b)}; with(r); break; }
    case 2: { exec::__memory_resource_adaptor_t<std::allocator<int>> r{std::allocator<int>()}; with(r); break; }
    case 3: { exec::__memory_resource_adaptor_t<mr*> r{&res}; with(*static_cast<mr*>(&r)); break; }
    }
  }
  template <class A> void typed(A a, book& b)
  {
    auto one = [&]<class T>(std::type_identity<T>, std::size_t n) {
      using R = typename std::allocator_traits<A>::template rebind_alloc<T>;
      R r(a);
      T* p = nullptr;
      try { p = std::allocator_traits<R>::allocate(r, n); } catch (std::bad_alloc const &) { MC_CHECK(b.failed); return; }
      for (std::size_t i = 0; i < n; ++i) std::allocator_traits<R>::construct(r, p + i);
      for (std::size_t i = 0; i < n; ++i) std::allocator_traits<R>::destroy(r, p + i);
      R back(a);
      if constexpr (requires { back == r; }) MC_CHECK(back == r);
      std::allocator_traits<R>::deallocate(back, p, n);
    };
    std::size_t n = 1 + mc::choose(3, "objects");
    switch (mc::choose(4, "type"))
    {
    case 0: one(std::type_identity<char>{}, n); break;
    case 1: one(std::type_identity<at<8>>{}, n); break;
    case 2: one(std::type_identity<at<32>>{}, n); break;
    case 3: one(std::type_identity<at<128>>{}, n); break;
    }
  }
  void allocators()
  {
    book b("the allocator");
    mr   res(&b);
    b.fail_at = mc::choose(2, "failing allocation");
    switch (mc::choose(5, "allocator"))
    {
    case 0: typed(exec::__frame_allocator_t<al<int>>(al<int>(&b)), b); break;
    case 1: typed(exec::__frame_allocator_t<std::pmr::memory_resource*>(&res), b); break;
    case 2: typed(exec::__frame_allocator_t<mr*>(&res), b); break;
    case 3: typed(ex::__any_allocator<std::byte>(al<std::byte>(&b)), b); break;
    case 4: typed(ex::__any_allocator<int>(al<int>(&b)), b); break;
    }
  }
  std::conditional_t<2 == MC_PART, mc::registrar, decltype(nullptr)> r1 = [] {
    if constexpr (2 == MC_PART) return mc::registrar{"P39", "resources", +[] { resources(); }, {.preempt = 0}};
    else return nullptr;
  }();
  std::conditional_t<2 == MC_PART, mc::registrar, decltype(nullptr)> r2 = [] {
    if constexpr (2 == MC_PART) return mc::registrar{"P39", "allocators", +[] { allocators(); }, {.preempt = 0}};
    else return nullptr;
  }();

  // ---- values that use allocators get that of the operation they live in -------------------------------------------------------
  struct aware
  {
    using allocator_type = al<std::byte>;
    allocator_type a;
    int            v;
    aware(int x, allocator_type b) : a(b), v(x) {}
    aware(aware const & o) : a(o.a), v(o.v) {}
    aware(aware&& o) noexcept : a(o.a), v(o.v) {}
    aware(std::allocator_arg_t, allocator_type b, aware const & o) : a(b), v(o.v) {}
    aware(std::allocator_arg_t, allocator_type b, aware&& o) noexcept : a(b), v(o.v) {}
  };
  struct aware_fn : aware
  {
    using aware::aware;
    aware_fn(std::allocator_arg_t t, allocator_type b, aware_fn const & o) : aware(t, b, o) {}
    aware_fn(std::allocator_arg_t t, allocator_type b, aware_fn&& o) noexcept : aware(t, b, std::move(o)) {}
    template <class... As> int operator()(As&&...) const { return a.b->name[0] == 'r' ? 7 : 0; }
  };
  struct aware_let : aware_fn
  {
    using aware_fn::aware_fn;
    aware_let(std::allocator_arg_t t, allocator_type b, aware_let const & o) : aware_fn(t, b, o) {}
    aware_let(std::allocator_arg_t t, allocator_type b, aware_let&& o) noexcept : aware_fn(t, b, std::move(o)) {}
    template <class... As> auto operator()(As&&... as) const { return ex::just(aware_fn::operator()(as...)); }
  };
  void uses_allocator()
  {
    book r("receiver's"), d("default");
    al<std::byte> da(&d);
    seen m;
    auto run = [&](auto s) {
      bool lv = mc::choose(2, "lvalue");
      auto go = [&](auto&& x) {
        auto op = ex::connect(static_cast<decltype(x)>(x), rcvr<env1>{&m, env1(&r)});
        ex::start(op);
        m.g.wait();
      };
      if (lv) go(s); else go(std::move(s));
    };
    switch (2 + mc::choose(5, "sender"))
    {
    case 2: run(ex::just() | ex::then(aware_fn(1, da))); break;
    case 3: run(ex::just(1) | ex::let_value(aware_let(1, da))); break;
    case 4: run(ex::just_error(1) | ex::let_error(aware_let(1, da))); break;
    case 5: run(ex::just_stopped() | ex::let_stopped(aware_let(1, da))); break;
    case 6: run(ex::just_stopped() | ex::upon_stopped(aware_fn(1, da))); break;
    }
    MC_CHECK(m.n == 1 && m.c == 'v' && m.v == 7);
  }
  std::conditional_t<2 == MC_PART, mc::registrar, decltype(nullptr)> u1 = [] {
    if constexpr (2 == MC_PART) return mc::registrar{"P39", "uses_allocator", +[] { uses_allocator(); }, {.preempt = 0}};
    else return nullptr;
  }();

  // ---- schedulers --------------------------------------------------------------------------------------------------------------
  // a scheduler that allocates for its operations, from the allocator of the receiver
  struct hungry
  {
    using scheduler_concept = ex::scheduler_t;
    struct snd
    {
      using sender_concept = ex::sender_t;
      using completion_signatures = ex::completion_signatures<ex::set_value_t()>;
      template <class R>
      struct op
      {
        R r;
        void start() & noexcept
        {
          auto a = ex::get_allocator(ex::get_env(r));
          using A = typename std::allocator_traits<decltype(a)>::template rebind_alloc<at<8>>;
          A     b(a);
          auto* p = std::allocator_traits<A>::allocate(b, 2);
          new (p) at<8>(1);
          std::thread([this, p, b]() mutable {
            p->~at<8>();
            std::allocator_traits<A>::deallocate(b, p, 2);
            ex::set_value(std::move(r));
          }).detach();
        }
      };
      template <class R> op<R> connect(R r) const { return {std::move(r)}; }
      struct env { template <class T, class... As> hungry query(ex::get_completion_scheduler_t<T>, As const &...) const noexcept { return {}; } };
      env get_env() const noexcept { return {}; }
    };
    snd schedule() const noexcept { return {}; }
    bool operator==(hungry const &) const noexcept = default;
  };
  // a scheduler that takes room, and with it the operations made from it
  template <std::size_t N, std::size_t A>
  struct alignas(A) roomy
  {
    using scheduler_concept = ex::scheduler_t;
    char pad[N];
    roomy() noexcept { std::memset(pad, 3, N); ok(); }
    roomy(roomy const & o) noexcept { std::memcpy(pad, o.pad, N); ok(); o.ok(); }
    roomy& operator=(roomy const & o) noexcept { std::memcpy(pad, o.pad, N); ok(); return *this; }
    ~roomy() { ok(); }
    void ok() const
    {
      roomy const * volatile self = this;
      if (reinterpret_cast<std::uintptr_t>(self) % A) mc::fail("a scheduler aligned to %zu lies at an address that is not", A);
      for (char c : pad) if (c != 3) mc::fail("a scheduler has been overwritten");
    }
    struct snd
    {
      using sender_concept = ex::sender_t;
      using completion_signatures = ex::completion_signatures<ex::set_value_t()>;
      template <class R> struct op { R r; void start() & noexcept { ex::set_value(std::move(r)); } };
      template <class R> op<R> connect(R r) const { return {std::move(r)}; }
      struct env { template <class T, class... As> roomy query(ex::get_completion_scheduler_t<T>, As const &...) const noexcept { return {}; } };
      env get_env() const noexcept { return {}; }
    };
    snd schedule() const noexcept { return {}; }
    bool operator==(roomy const &) const noexcept { return true; }
  };
  template <class Sch> void erased(Sch sch, bool asks, bool copying = false)
  {
    book mine("the scheduler's allocator"), env("the receiver's allocator");
    seen m;
    int  n = 0, what = mc::choose(4, "use"), copies = mc::choose(2, "copies"), failing = copying ? 2 : mc::choose(3, "failing allocation: none, construction, start");
    mine.fail_at = copying ? 2 : failing == 1;
    bool thrown = false;
    auto run = [&](auto s) {
      auto op = ex::connect(std::move(s), rcvr<env1>{&m, env1(&env)});
      if (failing == 2 && !copying) mine.fail_at = mine.allocs + 1;
      ex::start(op);
      m.g.wait();
    };
    try
    {
      ex::task_scheduler ts(sch, al<std::byte>(&mine));
      if (copies) { auto c = ts; MC_CHECK(c == ts); ts = c; auto d = std::move(c); MC_CHECK(d == ts); }
      at<8> dummy;
      std::atomic<int> hits{0};
      switch (what)
      {
      case 0: run(ex::schedule(ts)); break;
      case 1: run(ex::schedule(ts) | ex::bulk(ex::par, 2, [&](int) noexcept { ++hits; })); n = 2; break;
      case 2: run(ex::schedule(ts) | ex::bulk_chunked(ex::par, 3, [&](int b, int e) noexcept { hits += e - b; })); n = 3; break;
      case 3: { auto op = ex::connect(ex::schedule(ts), rcvr<env1>{&m, env1(&env)}); (void) op; break; }
      }
      if (m.c == 'v') MC_CHECK(hits == n);
    }
    catch (std::bad_alloc const &) { thrown = true; }
    if (mine.failed) MC_CHECK(thrown || m.c == 'm');
    else MC_CHECK(!thrown && m.n == (what != 3) && (what == 3 || m.c == 'v'));
    if (asks && m.c == 'v') MC_CHECK(env.allocs > 0);
    mc::outcome("%d%c", thrown, m.c ? m.c : '-');
  }
  void schedulers()
  {
    switch (mc::choose(2, "scheduler"))
    {
    case 0: erased(ex::inline_scheduler{}, false); break;
    case 1: erased(hungry{}, true); break;
    }
  }
  template <std::size_t... N> void roomy_schedulers(bool copying = false)
  {
    int k = mc::choose(int(sizeof...(N)), "size");
    int i = 0;
    ((i++ == k ? erased(roomy<N & 0xffff, (N >> 16 ? N >> 16 : 8)>{}, false, copying) : void()), ...);
  }
  // items of a sequence on the pool
  void pool_items()
  {
    book b("the receiver's allocator");
    seen m;
    int  n = mc::choose(4, "items"), hits = 0, through = mc::choose(4, "through");
    b.fail_at = mc::choose(2, "failing allocation");
    bool thrown = false;
    {
      exec::static_thread_pool pool(1);
      std::vector<int> v(n);
      try
      {
        auto all = [&] { return exec::schedule_all(pool, std::move(v)); };
        auto count = ex::then([&](int) noexcept { ++hits; });
        auto drop = ex::then([](int) noexcept {});
        auto run = [&](auto s) {
          auto op = ex::connect(std::move(s), rcvr<env1>{&m, env1(&b)});
          if (mc::choose(2, "start")) { ex::start(op); m.g.wait(); }
          else hits = n;
        };
        switch (through)
        {
        case 0: run(exec::ignore_all_values(exec::transform_each(all(), count))); break;
        case 1: run(exec::ignore_all_values(exec::transform_each(exec::transform_each(all(), drop), ex::then([&]() noexcept { ++hits; })))); break;
        case 2: run(exec::ignore_all_values(exec::transform_each(exec::merge(all()), count))); break;
        case 3: run(exec::ignore_all_values(all())); hits = n; break;
        }
      }
      catch (std::bad_alloc const &) { thrown = true; }
    }
    if (b.failed) MC_CHECK(thrown);
    else MC_CHECK(!thrown && hits == n && (m.n == 0 || m.c == 'v'));
  }
  // the memory of the work-stealing queue
  void queue_memory()
  {
    struct node { node* next = nullptr; };
    book b("the queue's allocator");
    static constexpr std::size_t nb[] = {1, 2, 4, 8};
    std::size_t blocks = nb[mc::choose(4, "blocks")], size = nb[mc::choose(4, "block size")];
    b.fail_at = mc::choose(8, "failing allocation");
    try
    {
      exec::bwos::lifo_queue<int*, al<int*>> q(blocks, size, al<int*>(&b));
      int x[8] = {}, pushed = 0, popped = 0;
      for (int i = 0; i < 8; ++i) if (q.push_back(&x[i])) ++pushed; else break;
      while (q.pop_back()) ++popped;
      MC_CHECK(pushed == popped && b.allocs > 0);
    }
    catch (std::bad_alloc const &) { MC_CHECK(b.failed); }
  }
  std::conditional_t<3 == MC_PART, mc::registrar, decltype(nullptr)> s1 = [] {
    if constexpr (3 == MC_PART) return mc::registrar{"P39", "schedulers", +[] { schedulers(); }, {.preempt = 1}};
    else return nullptr;
  }();
  std::conditional_t<4 == MC_PART, mc::registrar, decltype(nullptr)> s0 = [] {
    if constexpr (4 == MC_PART) return mc::registrar{"P39", "roomy_schedulers", +[] { roomy_schedulers<1, 16, 24, 32, 40, 48, 56, 64, 80, 96, 128>(); }, {.preempt = 0}};
    else return nullptr;
  }();
  std::conditional_t<4 == MC_PART, mc::registrar, decltype(nullptr)> s00 = [] {
    if constexpr (4 == MC_PART) return mc::registrar{"P39", "aligned_schedulers", +[] { roomy_schedulers<(16 << 16) + 16, (32 << 16) + 32, (64 << 16) + 64>(); }, {.preempt = 0}};
    else return nullptr;
  }();
  std::conditional_t<4 == MC_PART, mc::registrar, decltype(nullptr)> s01 = [] {
    if constexpr (4 == MC_PART) return mc::registrar{"P39", "copying_fails", +[] { roomy_schedulers<64>(true); }, {.preempt = 0}};
    else return nullptr;
  }();
  std::conditional_t<3 == MC_PART, mc::registrar, decltype(nullptr)> s2 = [] {
    if constexpr (3 == MC_PART) return mc::registrar{"P39", "pool_items", +[] { pool_items(); }, {.preempt = 0}};
    else return nullptr;
  }();
  std::conditional_t<3 == MC_PART, mc::registrar, decltype(nullptr)> s3 = [] {
    if constexpr (3 == MC_PART) return mc::registrar{"P39", "queue_memory", +[] { queue_memory(); }, {.preempt = 0}};
    else return nullptr;
  }();
}  // namespace
