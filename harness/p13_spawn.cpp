// P13: spawn and spawn_future.
#include "common.hpp"
using h::tv;

namespace
{
  using sc = ex::simple_counting_scope;
  using cs = ex::counting_scope;
  using tenv = h::sched_env<h::thread_sched>;

  // completes with set_value() or set_stopped(); tracks live operations
  struct wdata { h::chan ch; h::mode m; int* started; int* live; int* done; };
  struct wsnd : wdata
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>;
    template <class R>
    struct op
    {
      R r; wdata d; tv payload{1};
      op(R rr, wdata const & x) : r(std::move(rr)), d(x) { if (d.live) ++*d.live; }
      op(op&&) = delete;
      ~op() { if (d.live) --*d.live; }
      void fin() noexcept { if (d.done) *d.done = 1; d.ch == h::VAL ? ex::set_value(std::move(r)) : ex::set_stopped(std::move(r)); }
      void start() & noexcept
      {
        if (d.started) ++*d.started;
        if (d.m == h::INLINE) fin(); else std::thread([this] { fin(); }).detach();
      }
    };
    template <class R> auto connect(R r) const -> op<R> { return op<R>(std::move(r), *this); }
  };

  // a counting allocator
  struct acount { int allocs = 0, frees = 0, fail_at = 0; };
  template <class T> struct calloc_
  {
    using value_type = T;
    acount* c;
    explicit calloc_(acount* x) : c(x) {}
    template <class U> calloc_(calloc_<U> const & o) noexcept : c(o.c) {}
    T* allocate(std::size_t n)
    {
      if (++c->allocs == c->fail_at) { --c->allocs; throw std::bad_alloc(); }
      return static_cast<T*>(::operator new(n * sizeof(T)));
    }
    void deallocate(T* p, std::size_t) noexcept { ++c->frees; ::operator delete(p); }
    friend bool operator==(calloc_, calloc_) = default;
  };
  struct aenv
  {
    acount* c;
    int tag = 0;
    calloc_<char> query(ex::get_allocator_t) const noexcept { return calloc_<char>(c); }
  };

  // join the scope, free it on completion, and check what must have happened before
  template <class Sc>
  void join(std::unique_ptr<Sc>& scope, h::rec& j)
  {
    auto* b = h::make(scope->join(), j, tenv{{3}});
    b->link.then = [](void* p) noexcept { static_cast<std::unique_ptr<Sc>*>(p)->reset(); };
    b->link.then_arg = &scope;
    b->start();
  }
}  // namespace

// ---------------------------------------------------------------- spawn
namespace
{
  template <class Sc>
  void spawn_n(int n, bool racing_close)
  {
    auto scope = std::make_unique<Sc>();
    int st[2] = {}, live = 0, lives[2] = {}, done[2] = {};
    h::chan c[2]; h::mode m[2];
    h::rec j;
    j.need = nullptr;
    (void) live;
    for (int i = 0; i < n; ++i) { c[i] = mc::choose(2, "ch") ? h::STOP : h::VAL; m[i] = h::pick_mode(); }
    std::thread t;
    if (racing_close) t = std::thread([s = scope.get()] { s->close(); });
    for (int i = 0; i < n; ++i) ex::spawn(wsnd{{c[i], m[i], &st[i], &lives[i], &done[i]}}, scope->get_token());
    if (racing_close) { t.join(); MC_CHECK(n < 2 || st[0] || !st[1]); }
    else for (int i = 0; i < n; ++i) MC_CHECK(st[i] == 1);
    join(scope, j);
    mc::join_all();
    MC_CHECK(j.is(h::VAL) && !scope);
    for (int i = 0; i < n; ++i) MC_CHECK(lives[i] == 0 && done[i] == st[i]);
    mc::outcome("%d%d%d", st[0], st[1], j.ctx);
  }
  struct join_live { int* lives; int n; };
}
MC_SCENARIO(P13, spawn_one, {.preempt = -1, .stale = 1}) { spawn_n<sc>(1, false); }
MC_SCENARIO(P13, spawn_two, {.preempt = -1}, {.preempt = -1, .stale = 1}) { spawn_n<sc>(2, false); }
MC_SCENARIO(P13, spawn_counting, {.preempt = 4}, {.preempt = -1}) { spawn_n<cs>(2, false); }
MC_SCENARIO(P13, spawn_close_race, {.preempt = -1}, {.preempt = -1, .stale = 1}) { spawn_n<sc>(2, true); }
// join completes only after the operation of the spawned work is destroyed
MC_SCENARIO(P13, spawn_join_destroyed, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  bool counting = mc::choose(2, "scope");
  int st = 0, live = 0, done = 0;
  h::rec j;
  j.zero = &live; j.need = &done; j.nneed = 1;
  if (counting)
  {
    auto s = std::make_unique<cs>();
    ex::spawn(wsnd{{h::VAL, h::REMOTE, &st, &live, &done}}, s->get_token());
    join(s, j);
    mc::join_all();
  }
  else
  {
    auto s = std::make_unique<sc>();
    ex::spawn(wsnd{{h::VAL, h::REMOTE, &st, &live, &done}}, s->get_token());
    join(s, j);
    mc::join_all();
  }
  MC_CHECK(j.is(h::VAL) && st == 1);
}
MC_SCENARIO(P13, spawn_closed, {.preempt = 0})
{
  sc scope;
  scope.close();
  int st = 0, live = 0;
  acount a;
  ex::spawn(wsnd{{h::VAL, h::INLINE, &st, &live, nullptr}}, scope.get_token());
  ex::spawn(wsnd{{h::VAL, h::INLINE, &st, &live, nullptr}}, scope.get_token(), aenv{&a});
  MC_CHECK(st == 0 && live == 0 && a.allocs == 1 && a.frees == 1);
  h::rec r;
  auto f = ex::spawn_future(h::src{h::VAL, 1, h::INLINE, &st}, scope.get_token(), aenv{&a});
  h::go(std::move(f), r);
  MC_CHECK(st == 0 && r.is(h::STOP) && a.allocs == 2 && a.frees == 2);
}
// allocator and environment
MC_SCENARIO(P13, environment, {.preempt = 0})
{
  sc scope;
  acount a, b;
  bool ran = false;
  bool fut = mc::choose(2, "future");
  auto probe = ex::read_env(ex::get_allocator) | ex::then([&](auto al) noexcept { ran = true; MC_CHECK(al.c == &a); });
  if (!fut) ex::spawn(probe, scope.get_token(), aenv{&a});
  else { h::rec r; h::go(ex::spawn_future(probe, scope.get_token(), aenv{&a}), r); MC_CHECK(r.is(h::VAL)); }
  MC_CHECK(ran && a.allocs == 1 && a.frees == 1);
  int n = mc::live_allocs();
  // allocation failure: thrown to the caller, nothing started, nothing associated
  int st = 0;
  a.fail_at = 2;
  bool thrown = false;
  try
  {
    if (!fut) ex::spawn(wsnd{{h::VAL, h::INLINE, &st, nullptr, nullptr}}, scope.get_token(), aenv{&a});
    else { h::rec r; h::go(ex::spawn_future(h::src{h::VAL, 1, h::INLINE, &st}, scope.get_token(), aenv{&a}), r); }
  }
  catch (std::bad_alloc const &) { thrown = true; }
  MC_CHECK(thrown && st == 0 && a.allocs == 1 && a.frees == 1 && mc::live_allocs() == n);
  h::rec j;
  h::go(scope.join(), j, tenv{{3}});
  MC_CHECK(j.is(h::VAL));
}
// ---------------------------------------------------------------- spawn_future
namespace
{
  enum consume { WAIT, DROP, DROP_CONNECTED };
  template <class Sc, class S, class Env = h::no_env>
  void take(std::unique_ptr<Sc>& scope, S s, h::rec& r, int how, Env e = {})
  {
    auto f = ex::spawn_future(std::move(s), scope->get_token());
    if (how == WAIT) h::go(std::move(f), r, e);
    else if (how == DROP_CONNECTED) { auto* b = h::make(std::move(f), r, e); delete b; }
  }
}
// every completion of the source, and every way to use the future
MC_SCENARIO(P13, future, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  auto scope = std::make_unique<sc>();
  h::chan c = h::pick_chan();
  h::mode m = h::pick_mode();
  int how = mc::choose(3, "use"), st = 0, done = 0;
  h::rec r, j;
  j.need = &done; j.nneed = 1;
  r.need = &done; r.nneed = 1;
  take(scope, h::src{c, 5, m, &st, 0, &done}, r, how);
  join(scope, j);
  mc::join_all();
  MC_CHECK(st == 1 && j.is(h::VAL) && !scope);
  if (how == WAIT) { if (c == h::STOP) MC_CHECK(r.is(h::STOP)); else MC_CHECK(r.is(c, 5)); }
  else MC_CHECK(r.n == 0);
  mc::outcome("%d%s", how, r.str().c_str());
}
// the future is consumed from another thread
MC_SCENARIO(P13, future_moved, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  auto scope = std::make_unique<sc>();
  h::chan c = h::pick_chan();
  int how = mc::choose(3, "use"), done = 0;
  h::rec r, j;
  r.need = &done; r.nneed = 1;
  {
    auto f = ex::spawn_future(h::src{c, 5, h::REMOTE, nullptr, 0, &done}, scope->get_token());
    std::thread t([&, g = std::move(f)]() mutable {
      if (how == WAIT) h::go(std::move(g), r);
      else if (how == DROP) { auto x = std::move(g); }
      else delete h::make(std::move(g), r);
    });
    t.join();
  }
  join(scope, j);
  mc::join_all();
  MC_CHECK(j.is(h::VAL));
  if (how == WAIT) { if (c == h::STOP) MC_CHECK(r.is(h::STOP)); else MC_CHECK(r.is(c, 5)); }
  else MC_CHECK(r.n == 0);
}
// dropping the future asks the work to stop
MC_SCENARIO(P13, abandon_stops, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  auto scope = std::make_unique<sc>();
  int how = 1 + mc::choose(2, "use"), stops = 0, st = 0, done = 0;
  h::chan c = mc::choose(2, "never") ? h::NONE : h::VAL;
  h::rec r, j;
  j.need = &done; j.nneed = 1;
  take(scope, h::ssrc(c, 5, 0, &stops, &st, &done), r, how);
  join(scope, j);
  mc::join_all();
  MC_CHECK(st == 1 && j.is(h::VAL) && r.n == 0);
  MC_CHECK(c == h::VAL || stops == 1);
}
namespace
{
  // stop requests from the future's receiver
  template <class Sc>
  void future_stop(h::chan c, h::mode m, bool stoppable, int when)
  {
    auto scope = std::make_unique<Sc>();
    int done = 0, stops = 0, st = 0;
    h::rec r, j;
    j.need = &done; j.nneed = 1;
    auto ss = std::make_unique<ex::inplace_stop_source>();
    std::thread t;
    if (when == 0) ss->request_stop();
    if (when == 1) t = std::thread([&] { ss->request_stop(); });
    if (stoppable) take(scope, h::ssrc(c, 5, 0, &stops, &st, &done), r, WAIT, h::stop_env{ss->get_token()});
    else take(scope, h::src{c, 5, m, &st, 0, &done}, r, WAIT, h::stop_env{ss->get_token()});
    if (when == 2) ss->request_stop();
    if (when == 3) { mc::join_all(); ss->request_stop(); }
    join(scope, j);
    if (t.joinable()) t.join();
    mc::join_all();
    MC_CHECK(st == 1 && j.is(h::VAL) && r.n == 1);
    if (r.ch != h::STOP) MC_CHECK(c != h::STOP && r.is(c, 5));
    if (c == h::NONE) MC_CHECK(r.is(h::STOP) && stops == 1);
    if (when == 3 && c != h::NONE && c != h::STOP) MC_CHECK(r.is(c, 5));
    mc::outcome("%s", r.str().c_str());
  }
}
MC_SCENARIO(P13, stop_before, {.preempt = -1}, {.preempt = -1, .stale = 1})
{ future_stop<sc>(h::chan(mc::choose(4, "ch")), h::REMOTE, true, 0); }
MC_SCENARIO(P13, stop_before_plain, {.preempt = -1}, {.preempt = -1, .stale = 1})
{ future_stop<sc>(h::pick_chan(), h::pick_mode(), false, 0); }
MC_SCENARIO(P13, stop_race, {.preempt = 5}, {.preempt = 6})
{ future_stop<sc>(mc::choose(2, "ch") ? h::VAL : h::NONE, h::REMOTE, true, 1); }
MC_SCENARIO(P13, stop_race_plain, {.preempt = 5}, {.preempt = -1})
{ future_stop<sc>(h::pick_chan(), h::pick_mode(), false, 1); }
MC_SCENARIO(P13, stop_after, {.preempt = 5}, {.preempt = -1})
{ future_stop<sc>(h::chan(mc::choose(4, "ch")), h::REMOTE, true, 2); }
MC_SCENARIO(P13, stop_after_plain, {.preempt = -1}, {.preempt = -1, .stale = 1})
{ future_stop<sc>(h::pick_chan(), h::REMOTE, false, 2); }
MC_SCENARIO(P13, stop_late, {.preempt = 3}, {.preempt = 5})
{ future_stop<sc>(h::chan(mc::choose(4, "ch")), h::REMOTE, true, 3); }
MC_SCENARIO(P13, stop_counting, {.preempt = 3}, {.preempt = 4})
{ future_stop<cs>(mc::choose(2, "ch") ? h::VAL : h::NONE, h::REMOTE, true, 1 + mc::choose(2, "when")); }
// the scope's own stop request reaches futures and plain spawns
MC_SCENARIO(P13, scope_stop, {.preempt = 5}, {.preempt = -1})
{
  auto scope = std::make_unique<cs>();
  int done = 0, stops = 0, st = 0, how = mc::choose(3, "use");
  h::rec r, j;
  std::thread t([s = scope.get()] { s->request_stop(); });
  take(scope, h::ssrc(h::NONE, 5, 0, &stops, &st, &done), r, how);
  t.join();
  join(scope, j);
  mc::join_all();
  MC_CHECK(st == 1 && done == 1 && j.is(h::VAL) && (how == WAIT ? r.is(h::STOP) : r.n == 0));
}
// storing the result throws
MC_SCENARIO(P13, store_throws, {.preempt = -1})
{
  struct thr { int v = 3; thr() = default; thr(thr const & o) : v(o.v) { if (h::tick()) throw h::boom{}; } };
  sc scope;
  h::throw_at = 0;
  h::rec r;
  int at = mc::choose(6, "throw at");
  auto f = ex::spawn_future(ex::just() | ex::then([] { return thr(); }) , scope.get_token());
  h::go(ex::spawn_future(ex::just() | ex::then([at] { h::throw_at = at; return thr(); }) , scope.get_token()) | ex::then([](thr t) { h::throw_at = 0; return t.v; }), r);
  h::throw_at = 0;
  { auto x = std::move(f); }
  h::rec j;
  h::go(scope.join(), j, tenv{{3}});
  MC_CHECK(j.is(h::VAL) && r.n == 1 && (r.is(h::VAL, 3) || r.is(h::ERR, 1077)));
  mc::outcome("%s", r.str().c_str());
}
// connecting the work throws
namespace
{
  struct bad
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures<ex::set_value_t()>;
    template <class R> struct op { R r; op(op&&) = delete; explicit op(R x) : r(std::move(x)) {} void start() & noexcept { mc::fail("started"); } };
    template <class R> auto connect(R r) const -> op<R> { if (r_throw) throw h::boom{}; return op<R>(std::move(r)); }
    bool r_throw = true;
  };
}
MC_SCENARIO(P13, connect_throws, {.preempt = 0})
{
  bool fut = mc::choose(2, "future");
  cs scope;
  acount a;
  bool thrown = false;
  try { if (fut) (void) ex::spawn_future(bad{}, scope.get_token(), aenv{&a}); else ex::spawn(bad{}, scope.get_token(), aenv{&a}); }
  catch (h::boom const &) { thrown = true; }
  MC_CHECK(thrown && a.allocs == 1 && a.frees == 1);
}
// two futures joined by when_all, one failing: the other is asked to stop
MC_SCENARIO(P13, when_all_of_futures, {.preempt = 3}, {.preempt = 5})
{
  auto scope = std::make_unique<sc>();
  int stops = 0, st = 0, done = 0;
  h::rec r, j;
  h::go(ex::when_all(ex::spawn_future(h::ssrc(h::NONE, 5, 0, &stops, &st, &done), scope->get_token()),
                     ex::spawn_future(h::src{h::ERR, 6, h::REMOTE}, scope->get_token())), r);
  join(scope, j);
  mc::join_all();
  MC_CHECK(r.is(h::ERR, 6) && done == 1 && stops == 1 && j.is(h::VAL));
}
// The future was asked to stop before it is started: it completes without waiting for work that ignores the request.
MC_SCENARIO(P13, stop_does_not_wait, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  auto scope = std::make_unique<sc>();
  h::chan c = h::pick_chan();
  int when = mc::choose(3, "request: before the start, after it, from another thread"), done = 0;
  std::atomic<int> go{0};
  h::rec r, j;
  j.need = &done; j.nneed = 1;
  ex::inplace_stop_source ss;
  auto work = h::make_custom<ex::set_value_t(int), ex::set_error_t(int), ex::set_stopped_t()>(
    [&, c](auto& rc) noexcept {
      go.wait(0);
      done = 1;
      if (c == h::VAL) ex::set_value(std::move(rc), 5);
      else if (c == h::ERR) ex::set_error(std::move(rc), 5);
      else ex::set_stopped(std::move(rc));
    }, h::REMOTE);
  {
    auto f = ex::spawn_future(std::move(work), scope->get_token());
    if (when == 0) ss.request_stop();
    std::thread t;
    if (when == 2) t = std::thread([&] { ss.request_stop(); });
    h::gate g(1);
    h::go(std::move(f), r, g, h::stop_env{ss.get_token()});
    if (when == 1) ss.request_stop();
    if (t.joinable()) t.join();
    g.wait();  // a deadlock if the future waits for the work
    MC_CHECK(r.is(h::STOP));
  }
  go.store(1); go.notify_all();
  join(scope, j);
  mc::join_all();
  MC_CHECK(j.is(h::VAL));
}
// The memory of spawned work has been returned to its allocator before the join of the scope completes, even if the
// join is waiting when the last association goes away.
namespace
{
  struct jctx { std::unique_ptr<sc>* scope; acount* a; int bad; };
  void join_counting(jctx& x, h::rec& j)
  {
    auto* b = h::make((*x.scope)->join(), j, tenv{{3}});
    b->link.then = [](void* p) noexcept {
      auto* x = static_cast<jctx*>(p);
      if (x->a->allocs != x->a->frees) mc::fail("join completed while %d allocation(s) of spawned work were not returned", x->a->allocs - x->a->frees);
      x->scope->reset();
    };
    b->link.then_arg = &x;
    b->start();
  }
}
MC_SCENARIO(P13, memory_before_join, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  auto scope = std::make_unique<sc>();
  int how = mc::choose(5, "use"), st = 0, done = 0;
  h::chan c = mc::choose(2, "ch") ? h::VAL : h::STOP;
  h::mode m = h::pick_mode();
  acount a;
  h::rec r, j;
  j.need = &done; j.nneed = 1;
  jctx x{&scope, &a, 0};
  if (how < 2)
  {
    if (how == 0) ex::spawn(wsnd{{c, m, &st, nullptr, &done}}, scope->get_token(), aenv{&a});
    else { ex::spawn(wsnd{{h::VAL, h::INLINE, &st, nullptr, &done}}, scope->get_token(), aenv{&a});
           ex::spawn(wsnd{{c, m, &st, nullptr, &done}}, scope->get_token(), aenv{&a}); }
    join_counting(x, j);
  }
  else
  {
    auto f = ex::spawn_future(wsnd{{c, m, &st, nullptr, &done}}, scope->get_token(), aenv{&a});
    join_counting(x, j);
    if (how == 2) h::go(std::move(f), r);
    else if (how == 3) { auto y = std::move(f); }
    else delete h::make(std::move(f), r);
  }
  mc::join_all();
  MC_CHECK(j.is(h::VAL) && !scope && a.allocs == a.frees && a.allocs == (how == 1 ? 2 : 1));
  MC_CHECK(how != 2 || r.is(c));
}
