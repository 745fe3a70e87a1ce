// P14: exec::async_scope (nest, spawn, spawn_future, when_empty / on_empty, request_stop).
#include "common.hpp"
#include <exec/async_scope.hpp>
using h::tv;

namespace
{
  using scope_t = exec::async_scope;
  struct wdata { h::chan ch; h::mode m; int* started; int* live; int* done; };
  struct wsnd : wdata
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>;
    template <class R>
    struct op
    {
      R r; wdata d; tv payload{1};
      op(R rr, wdata const & x) : r(std::move(rr)), d(x) { if (d.live) ++*d.live; }
      op(op&&) = delete;
      ~op() { if (d.live) --*d.live; }
      void fin() noexcept { if (d.done) *d.done = 1; d.ch == h::VAL ? ex::set_value(std::move(r)) : ex::set_stopped(std::move(r)); }
      void start() & noexcept
      {
        if (d.started) ++*d.started;
        if (d.m == h::INLINE) fin(); else std::thread([this] { fin(); }).detach();
      }
    };
    template <class R> auto connect(R r) const -> op<R> { return op<R>(std::move(r), *this); }
  };
  // wait for the scope to be empty and free it
  void drain(std::unique_ptr<scope_t>& s, h::rec& j)
  {
    auto* b = h::make(s->on_empty(), j);
    b->link.then = [](void* p) noexcept { static_cast<std::unique_ptr<scope_t>*>(p)->reset(); };
    b->link.then_arg = &s;
    b->start();
  }
}  // namespace

// nested work: same completion, on_empty only afterwards
MC_SCENARIO(P14, nest_one, {.preempt = -1, .stale = 1})
{
  auto s = std::make_unique<scope_t>();
  h::chan c = h::pick_chan();
  h::mode m = h::pick_mode();
  int done = 0, st = 0;
  h::rec r, j;
  j.need = &done; j.nneed = 1;
  h::go(s->nest(h::src{c, 5, m, &st, 0, &done}), r);
  drain(s, j);
  mc::join_all();
  MC_CHECK(j.is(h::VAL) && !s && st == 1 && (c == h::STOP ? r.is(h::STOP) : r.is(c, 5)));
  mc::outcome("%s%d", r.str().c_str(), j.tid);
}
namespace
{
  template <class F> void two(F run, bool second_waiter)
  {
    auto s = std::make_unique<scope_t>();
    int done[2] = {}, st[2] = {}, live[2] = {};
    h::rec j, k;
    j.need = done; j.nneed = 2; k.need = done; k.nneed = 2;
    run(*s, done, st, live);
    std::atomic<int> left{2};
    if (!second_waiter) drain(s, j);
    else
    {
      struct fin { std::atomic<int>* l; std::unique_ptr<scope_t>* s; } f{&left, &s};
      auto then = [](void* p) noexcept { auto* f = static_cast<fin*>(p); if (f->l->fetch_sub(1) == 1) f->s->reset(); };
      auto* a = h::make(s->on_empty(), j);
      auto* b = h::make(s->when_empty(ex::just(4)), k);
      a->link.then = b->link.then = then;
      a->link.then_arg = b->link.then_arg = &f;
      std::thread t([b] { b->start(); });
      a->start();
      t.join();
      mc::join_all();
      MC_CHECK(k.is(h::VAL, 4));
    }
    mc::join_all();
    MC_CHECK(j.is(h::VAL) && !s);
    for (int i = 0; i < 2; ++i) MC_CHECK(st[i] == 1 && live[i] == 0);
    mc::outcome("%d", j.tid);
  }
}
MC_SCENARIO(P14, spawn_two, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  h::chan c[2]; h::mode m[2];
  for (int i = 0; i < 2; ++i) { c[i] = mc::choose(2, "ch") ? h::STOP : h::VAL; m[i] = h::pick_mode(); }
  two([&](scope_t& s, int* done, int* st, int* live) {
    for (int i = 0; i < 2; ++i) s.spawn(wsnd{{c[i], m[i], &st[i], &live[i], &done[i]}});
  }, false);
}
MC_SCENARIO(P14, two_waiters, {.preempt = 3}, {.preempt = 5})
{
  h::mode m = h::pick_mode();
  two([&](scope_t& s, int* done, int* st, int* live) {
    s.spawn(wsnd{{h::VAL, h::REMOTE, &st[0], &live[0], &done[0]}});
    s.spawn(wsnd{{h::VAL, m, &st[1], &live[1], &done[1]}});
  }, true);
}
// the operation of spawned work is destroyed before on_empty completes
MC_SCENARIO(P14, spawn_destroyed, {.preempt = -1, .stale = 1})
{
  auto s = std::make_unique<scope_t>();
  int st = 0, live = 0, done = 0;
  h::rec j;
  j.zero = &live; j.need = &done; j.nneed = 1;
  s->spawn(wsnd{{mc::choose(2, "ch") ? h::VAL : h::STOP, h::REMOTE, &st, &live, &done}});
  drain(s, j);
  mc::join_all();
  MC_CHECK(j.is(h::VAL) && st == 1);
}
// empty again and again
MC_SCENARIO(P14, reuse, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  scope_t s;
  int st[2] = {}, done[2] = {};
  h::rec j[3];
  h::go(s.on_empty(), j[0]);
  MC_CHECK(j[0].is(h::VAL));
  for (int i = 0; i < 2; ++i)
  {
    s.spawn(wsnd{{h::VAL, h::REMOTE, &st[i], nullptr, &done[i]}});
    j[i + 1].need = done; j[i + 1].nneed = i + 1;
    h::go(s.on_empty(), j[i + 1]);
    mc::join_all();
    MC_CHECK(j[i + 1].is(h::VAL));
  }
}
// ---------------------------------------------------------------- stop
MC_SCENARIO(P14, stop_reaches_all, {.preempt = -1})
{
  scope_t s;
  int stops[4] = {}, st[4] = {};
  h::rec r[4], j;
  h::go(s.nest(h::ssrc(h::NONE, 1, 0, &stops[0], &st[0])), r[0]);
  s.spawn(h::ssrc(h::NONE, 2, 1, &stops[1], &st[1]) | ex::then([](tv) noexcept {}) | ex::upon_error([](auto) noexcept {}));
  h::go(s.spawn_future(h::ssrc(h::NONE, 3, 2, &stops[2], &st[2])), r[2]);
  { auto f = s.spawn_future(h::ssrc(h::NONE, 3, 3, &stops[3], &st[3])); }
  h::go(s.on_empty(), j);
  MC_CHECK(j.n == 0 && r[0].n == 0 && r[2].n == 0);
  MC_CHECK(s.request_stop());
  for (int i = 0; i < 4; ++i) MC_CHECK(st[i] == 1 && stops[i] == 1);
  MC_CHECK(r[0].is(h::STOP) && r[2].is(h::STOP) && j.is(h::VAL));
  // later work sees the request at once
  h::rec l;
  h::go(s.nest(h::ssrc(h::NONE, 1, 4)), l);
  MC_CHECK(l.is(h::STOP) && !s.request_stop());
}
namespace
{
  void stop_race(int kind, h::chan c)
  {
    auto s = std::make_unique<scope_t>();
    int stops = 0, st = 0, done = 0;
    h::rec r, j;
    j.need = &done; j.nneed = 1;
    std::thread t([p = s.get()] { p->request_stop(); });
    if (kind == 0) h::go(s->nest(h::ssrc(c, 5, 0, &stops, &st, &done)), r);
    else
    {
      auto f = s->spawn_future(h::ssrc(c, 5, 0, &stops, &st, &done));
      if (kind == 1) h::go(std::move(f), r);
    }
    t.join();
    drain(s, j);
    mc::join_all();
    MC_CHECK(j.is(h::VAL) && st == 1 && !s);
    if (kind < 2) MC_CHECK(c == h::NONE ? r.is(h::STOP) : r.is(h::STOP) || r.is(c, 5));
    else MC_CHECK(r.n == 0);
    mc::outcome("%d%s", kind, r.str().c_str());
  }
}
MC_SCENARIO(P14, stop_race_nest, {.preempt = 5}, {.preempt = -1}) { stop_race(0, mc::choose(2, "ch") ? h::VAL : h::NONE); }
MC_SCENARIO(P14, stop_race_future, {.preempt = 4}, {.preempt = 6}) { stop_race(1, mc::choose(2, "ch") ? h::VAL : h::NONE); }
MC_SCENARIO(P14, stop_race_dropped, {.preempt = 4}, {.preempt = 6}) { stop_race(2, mc::choose(2, "ch") ? h::VAL : h::NONE); }

// ---------------------------------------------------------------- spawn_future
MC_SCENARIO(P14, future, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  auto s = std::make_unique<scope_t>();
  h::chan c = h::pick_chan();
  h::mode m = h::pick_mode();
  int how = mc::choose(3, "use"), st = 0, done = 0;
  h::rec r, j;
  r.need = &done; r.nneed = 1;
  j.need = &done; j.nneed = 1;
  {
    auto f = s->spawn_future(h::src{c, 5, m, &st, 0, &done});
    if (how == 0) h::go(std::move(f), r);
    else if (how == 1) delete h::make(std::move(f), r);
  }
  drain(s, j);
  mc::join_all();
  MC_CHECK(st == 1 && j.is(h::VAL) && !s);
  if (how == 0) MC_CHECK(c == h::STOP ? r.is(h::STOP) : r.is(c, 5)); else MC_CHECK(r.n == 0);
  mc::outcome("%d%s", how, r.str().c_str());
}
// consumed on another thread than the one that spawned it
MC_SCENARIO(P14, future_moved, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  auto s = std::make_unique<scope_t>();
  h::chan c = h::pick_chan();
  int how = mc::choose(3, "use"), done = 0;
  h::rec r, j;
  r.need = &done; r.nneed = 1;
  j.need = &done; j.nneed = 1;
  auto f = std::make_unique<decltype(s->spawn_future(h::src{c, 5, h::REMOTE, nullptr, 0, &done}))>(
    s->spawn_future(h::src{c, 5, h::REMOTE, nullptr, 0, &done}));
  std::thread t([&] {
    if (how == 0) h::go(std::move(*f), r);
    else if (how == 1) { auto x = std::move(*f); }
    else delete h::make(std::move(*f), r);
    f.reset();
  });
  drain(s, j);
  t.join();
  mc::join_all();
  MC_CHECK(j.is(h::VAL) && !s);
  if (how == 0) MC_CHECK(c == h::STOP ? r.is(h::STOP) : r.is(c, 5)); else MC_CHECK(r.n == 0);
}
// a stop request from the consumer at any time: one completion, with the result or with stopped
namespace
{
  void consumer_stop(int how, int when)
  {
    auto s = std::make_unique<scope_t>();
    h::chan c = h::pick_chan();
    int done = 0;
    h::rec r, j;
    j.need = &done; j.nneed = 1;
    auto ss = std::make_unique<ex::inplace_stop_source>();
    {
      auto f = s->spawn_future(h::src{c, 5, h::REMOTE, nullptr, 0, &done});
      if (when == 0) ss->request_stop();
      std::thread t;
      if (when == 1) t = std::thread([&] { ss->request_stop(); });
      if (how == 0) h::go(std::move(f), r, h::stop_env{ss->get_token()});
      else delete h::make(std::move(f), r, h::stop_env{ss->get_token()});
      if (when == 2) ss->request_stop();
      if (t.joinable()) t.join();
    }
    drain(s, j);
    mc::join_all();
    ss.reset();
    MC_CHECK(j.is(h::VAL) && !s);
    if (how == 0) MC_CHECK(r.is(h::STOP) || (c != h::STOP && r.is(c, 5))); else MC_CHECK(r.n == 0);
    mc::outcome("%s", r.str().c_str());
  }
}
MC_SCENARIO(P14, consumer_stop_before, {.preempt = -1}) { consumer_stop(0, 0); }
MC_SCENARIO(P14, consumer_stop_race, {.preempt = 4}, {.preempt = -1}) { consumer_stop(0, 1); }
MC_SCENARIO(P14, consumer_stop_after, {.preempt = -1}) { consumer_stop(0, 2); }
MC_SCENARIO(P14, consumer_stop_dropped, {.preempt = 4}, {.preempt = -1}) { consumer_stop(1, 1); }
// ---------------------------------------------------------------- failures
MC_SCENARIO(P14, store_throws, {.preempt = -1})
{
  struct thr { int v = 3; thr() = default; thr(thr const & o) : v(o.v) { if (h::tick()) throw h::boom{}; } };
  scope_t s;
  h::throw_at = 0;
  h::rec r, j;
  int at = mc::choose(6, "throw at");
  h::go(s.spawn_future(ex::just() | ex::then([at] { h::throw_at = at; return thr(); })) | ex::then([](thr t) { h::throw_at = 0; return t.v; }), r);
  h::throw_at = 0;
  h::go(s.on_empty(), j);
  MC_CHECK(j.is(h::VAL) && (r.is(h::VAL, 3) || r.is(h::ERR, 1077)));
  mc::outcome("%s", r.str().c_str());
}
namespace
{
  struct bad
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures<ex::set_value_t()>;
    template <class R> struct op { R r; op(op&&) = delete; explicit op(R x) : r(std::move(x)) {} void start() & noexcept { mc::fail("started"); } };
    bool thr = true;
    template <class R> auto connect(R r) const -> op<R> { if (thr) throw h::boom{}; return op<R>(std::move(r)); }
  };
}
MC_SCENARIO(P14, connect_throws, {.preempt = 0})
{
  int how = mc::choose(3, "how");
  scope_t s;
  h::rec r, j;
  bool thrown = false;
  try
  {
    if (how == 0) s.spawn(bad{});
    else if (how == 1) (void) s.spawn_future(bad{});
    else h::go(s.nest(bad{}), r);
  }
  catch (h::boom const &) { thrown = true; }
  h::go(s.on_empty(), j);
  MC_CHECK(thrown && r.n == 0 && j.is(h::VAL));
}
MC_SCENARIO(P14, not_started, {.preempt = 0})
{
  // nested senders that are dropped, or connected and not started, do not keep the scope busy
  scope_t s;
  int st = 0;
  h::rec r, j;
  { auto n = s.nest(h::src{h::VAL, 1, h::INLINE, &st}); }
  delete h::make(s.nest(h::src{h::VAL, 1, h::INLINE, &st}), r);
  h::go(s.on_empty(), j);
  MC_CHECK(st == 0 && j.is(h::VAL) && r.n == 0);
}
// ---------------------------------------------------------------- histories
// Every sequence of operations on one thread, checked against a reference: a waiter completes exactly when the number of
// running operations is (or drops to) zero.
namespace
{
  struct hist
  {
    // a sender completed by hand
    struct pend { void* op = nullptr; void (*fin)(void*, int) noexcept = nullptr; };
    struct snd
    {
      using sender_concept = ex::sender_t;
      using completion_signatures = ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>;
      pend* p;
      hist* self = nullptr;  // inline: complete with this effect
      int   inl = 0;
      template <class R> struct op
      {
        R r; pend* p; hist* self; int inl;
        op(R rr, snd const & s) : r(std::move(rr)), p(s.p), self(s.self), inl(s.inl) {}
        op(op&&) = delete;
        void start() & noexcept
        {
          if (inl)
          {
            --self->running;
            self->settle();
            inl == 1 ? ex::set_value(std::move(r)) : ex::set_stopped(std::move(r));
            return;
          }
          *p = {this, [](void* o, int ch) noexcept { auto* x = static_cast<op*>(o); ch ? ex::set_stopped(std::move(x->r)) : ex::set_value(std::move(x->r)); }};
        }
      };
      template <class R> auto connect(R r) const -> op<R> { return op<R>(std::move(r), *this); }
    };
    scope_t s;
    pend    p[8];
    int     kind[8] = {};  // 1 nested 2 spawned 3 future
    h::rec  r[8], w[8];
    bool    expect[8] = {};
    int     np = 0, nw = 0, running = 0;
    void settle() { if (running == 0) for (int i = 0; i < nw; ++i) expect[i] = true; }
    void check()
    {
      for (int i = 0; i < nw; ++i)
        if (expect[i] != (w[i].n == 1)) mc::fail("waiter %d: %d completions with %d operation(s) running", i, w[i].n, running);
    }
    void run(int depth)
    {
      for (int d = 0; d < depth; ++d)
      {
        int pending[8], k = 0;
        for (int i = 0; i < np; ++i) if (p[i].op) pending[k++] = i;
        int nops = 6 + k;
        int o = mc::choose(nops, "op");
        if (o < 2) { int i = np++; kind[i] = 1; ++running; h::go(s.nest(snd{&p[i], this, o ? 1 + mc::choose(2, "ch") : 0}), r[i]); if (o) MC_CHECK(r[i].n == 1); }
        else if (o == 2) { int i = np++; kind[i] = 2; ++running; s.spawn(snd{&p[i]}); }
        else if (o == 3) { ++running; s.spawn(snd{nullptr, this, 1}); }
        else if (o == 4) { int i = nw++; if (running == 0) expect[i] = true; h::go(s.on_empty(), w[i]); }
        else if (o == 5) { int i = np++; kind[i] = 3; ++running; h::go(s.spawn_future(snd{&p[i]}), r[i]); }
        else
        {
          int i = pending[o - 6], ch = mc::choose(2, "ch");
          auto q = std::exchange(p[i], pend{});
          --running;
          settle();
          q.fin(q.op, ch);
          if (kind[i] != 2) MC_CHECK(r[i].is(ch ? h::STOP : h::VAL));
        }
        check();
      }
      for (int i = 0; i < np; ++i)
        if (p[i].op) { auto q = std::exchange(p[i], pend{}); --running; settle(); q.fin(q.op, 0); check(); }
    }
  };
}
MC_SCENARIO(P14, histories, {.preempt = 0}) { hist{}.run(MC_THOROUGH ? 6 : 5); }
// an operation that completes inside its start() while another thread waits for the scope to be empty
MC_SCENARIO(P14, inline_vs_waiter, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  scope_t s;
  int how = mc::choose(3, "how"), st = 0, done = 0;
  h::rec r, j[2], k;
  std::thread t([&] { h::go(s.on_empty(), k); });
  if (how == 0) h::go(s.nest(h::src{h::VAL, 5, h::INLINE, &st, 0, &done}), r);
  else if (how == 1) s.spawn(wsnd{{h::VAL, h::INLINE, &st, nullptr, &done}});
  else h::go(s.spawn_future(wsnd{{h::VAL, h::INLINE, &st, nullptr, &done}}), r);
  MC_CHECK(st == 1 && done == 1);
  h::go(s.on_empty(), j[0]);
  MC_CHECK(j[0].is(h::VAL));
  t.join();
  mc::join_all();
  MC_CHECK(k.is(h::VAL));
  h::go(s.on_empty(), j[1]);
  MC_CHECK(j[1].is(h::VAL));
}
