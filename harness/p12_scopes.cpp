// P12: simple_counting_scope, counting_scope, associate.
#include "common.hpp"
using h::tv;

namespace
{
  using sc = ex::simple_counting_scope;
  using cs = ex::counting_scope;
  using tenv = h::sched_env<h::thread_sched>;
  template <class Sc> using assoc_t = decltype(std::declval<Sc&>().get_token().try_associate());

  // an inline scheduler that counts, so that deferred and inline completions can be told apart
  struct cnt_sched
  {
    int* n;
    struct snd
    {
      using sender_concept = ex::sender_t;
      using completion_signatures = ex::completion_signatures<ex::set_value_t()>;
      int* n;
      template <class R> struct op
      {
        R r; int* n;
        op(R rr, int* k) : r(std::move(rr)), n(k) {}
        op(op&&) = delete;
        void start() & noexcept { ++*n; ex::set_value(std::move(r)); }
      };
      template <class R> auto connect(R r) const -> op<R> { return op<R>(std::move(r), n); }
      struct env { int* n; template <class T, class... As> cnt_sched query(ex::get_completion_scheduler_t<T>, As const &...) const noexcept { return {n}; } };
      env get_env() const noexcept { return {n}; }
    };
    snd schedule() const noexcept { return {n}; }
    bool operator==(cnt_sched const &) const noexcept = default;
    using scheduler_concept = ex::scheduler_t;
  };

  // ---- all histories of the scope's operations against a reference state machine
  template <class Sc>
  void histories(int depth)
  {
    enum st { unused, open, closed, open_joining, closed_joining, unused_closed, joined };
    Sc   scope;
    auto tok = scope.get_token();
    st   s = unused;
    int  count = 0, deferred = 0, want_deferred = 0;
    std::vector<assoc_t<Sc>> held;
    std::vector<std::unique_ptr<h::rec>> joins;
    int pending = 0;
    cnt_sched sched{&deferred};
    auto join = [&] {
      joins.push_back(std::make_unique<h::rec>());
      auto* r = joins.back().get();
      h::go(scope.join(), *r, h::sched_env<cnt_sched>{sched});
      if (count == 0) { s = joined; MC_CHECK(r->is(h::VAL)); }
      else { ++pending; MC_CHECK(r->n == 0); s = s == open || s == open_joining ? open_joining : closed_joining; }
    };
    auto drop = [&](std::size_t i) {
      held.erase(held.begin() + long(i));
      if (--count == 0 && (s == open_joining || s == closed_joining)) { s = joined; want_deferred += pending; pending = 0; }
    };
    auto sync = [&] {
      MC_CHECK(deferred == want_deferred);
      int done = 0;
      for (auto& j : joins) { MC_CHECK(j->n <= 1); if (j->n) MC_CHECK(j->ch == h::VAL); done += j->n; }
      MC_CHECK(done == int(joins.size()) - pending);
    };
    std::string hist;
    for (int d = 0; d < depth; ++d)
    {
      int k = mc::choose(held.empty() ? 4 : 7, "op");
      hist += char('0' + k);
      switch (k)
      {
      case 0: goto end;
      case 1:
      case 5: {  // associate through the token, or through another association
        auto a = k == 1 ? tok.try_associate() : std::as_const(held.back()).try_associate();
        bool ok = s == unused || s == open || s == open_joining;
        if (bool(a) != ok) mc::fail("after history %s: try_associate returned %d, expected %d", hist.c_str(), int(bool(a)), int(ok));
        if (a) { ++count; if (s == unused) s = open; held.push_back(std::move(a)); MC_CHECK(!a); }
        break;
      }
      case 2: scope.close(); s = s == unused ? unused_closed : s == open ? closed : s == open_joining ? closed_joining : s; break;
      case 3: join(); break;
      case 4: drop(0); break;
      case 6: {  // move-assign an association over another: the overwritten one ends
        if (held.size() < 2) { held[0] = assoc_t<Sc>(); held.erase(held.begin()); --count;
          if (count == 0 && (s == open_joining || s == closed_joining)) { s = joined; want_deferred += pending; pending = 0; } }
        else { held[0] = std::move(held.back()); held.pop_back(); --count; }
        break;
      }
      }
      sync();
    }
  end:
    while (!held.empty()) { drop(held.size() - 1); sync(); }
    if (s != unused && s != unused_closed && s != joined) { join(); sync(); }
    // an empty association stays empty
    assoc_t<Sc> none;
    MC_CHECK(!none && !none.try_associate());
  }
}  // namespace

MC_SCENARIO(P12, histories_simple, {.preempt = 0}) { histories<sc>(7); }
MC_SCENARIO(P12, histories_counting, {.preempt = 0}) { histories<cs>(7); }

namespace
{
  // ---- join against n users dropping their associations; the join's receiver frees the scope
  template <class Sc>
  void join_race(int users, int joiners, bool destroy)
  {
    auto* scope = new Sc;
    std::vector<assoc_t<Sc>> a;
    for (int i = 0; i < users; ++i) a.push_back(scope->get_token().try_associate());
    int  done[3] = {};
    h::rec r[2];
    std::atomic<int> left{joiners};
    struct fin { std::atomic<int>* left; Sc* s; bool d; } f{&left, scope, destroy};
    auto then = [](void* p) noexcept {
      auto* f = static_cast<fin*>(p);
      if (f->left->fetch_sub(1) == 1 && f->d) delete f->s;
    };
    std::vector<std::thread> ts;
    using box_t = h::box<decltype(scope->join()), tenv>;
    std::vector<box_t*> ops;
    for (int j = 0; j < joiners; ++j)
    {
      r[j].need = done; r[j].nneed = users;
      auto* b = h::make(scope->join(), r[j], tenv{{3}});
      b->link.then = then; b->link.then_arg = &f;
      ops.push_back(b);
    }
    for (int i = 0; i < users; ++i)
      ts.emplace_back([&, i] { done[i] = 1; auto x = std::move(a[i]); });
    for (int j = 1; j < joiners; ++j) ts.emplace_back([&, j] { ops[j]->start(); });
    ops[0]->start();
    mc::join_all();
    for (auto& t : ts) t.join();
    for (int j = 0; j < joiners; ++j) { MC_CHECK(r[j].is(h::VAL)); mc::outcome("%d", r[j].ctx); }
    if (!destroy) { MC_CHECK(!scope->get_token().try_associate()); delete scope; }
  }
}  // namespace
MC_SCENARIO(P12, join_one_user, {.preempt = -1, .stale = 1}, {.preempt = -1, .stale = 1}) { join_race<sc>(1, 1, true); }
MC_SCENARIO(P12, join_two_users, {.preempt = -1, .stale = 1}, {.preempt = -1, .stale = 2}) { join_race<sc>(2, 1, true); }
MC_SCENARIO(P12, join_two_users_counting, {.preempt = 3}, {.preempt = -1}) { join_race<cs>(2, 1, true); }
MC_SCENARIO(P12, two_joiners, {.preempt = -1}, {.preempt = -1, .stale = 1}) { join_race<sc>(1, 2, true); }
MC_SCENARIO(P12, two_joiners_two_users, {.preempt = 3}, {.preempt = 5}) { join_race<sc>(2, 2, mc::choose(2, "destroy")); }

// association racing with close: none begins after close returned; one that began is waited for
MC_SCENARIO(P12, associate_close, {.preempt = -1, .stale = 1}, {.preempt = -1, .stale = 1})
{
  sc scope;
  std::atomic<int> is_closed{0};
  int got[2] = {}, work = 0, payload = 0;
  std::thread t([&] {
    for (int i = 0; i < 2; ++i)
    {
      int before = is_closed.load();
      auto a = scope.get_token().try_associate();
      got[i] = bool(a);
      if (before && a) mc::fail("an association began after close() had returned");
      if (a) ++work;
      else MC_CHECK(payload == 7);  // written before close
    }
  });
  payload = 7;
  scope.close();
  is_closed = 1;
  t.join();
  MC_CHECK(got[0] || !got[1]);
  h::rec r;
  h::go(scope.join(), r, tenv{{3}});
  MC_CHECK(r.is(h::VAL));
  mc::outcome("%d%d", got[0], got[1]);
}
// association racing with join: admitted before the join completes, or refused
MC_SCENARIO(P12, associate_join, {.preempt = -1}, {.preempt = -1})
{
  sc scope;
  int live = 0, got = 0;
  bool first = mc::choose(2, "held");
  auto a0 = first ? scope.get_token().try_associate() : assoc_t<sc>();
  std::atomic<int> completed{0};
  h::rec r;
  std::thread t([&] {
    {
      int c = completed.load();
      auto a = scope.get_token().try_associate();
      if (c && a) mc::fail("an association began after the scope had been joined");
      if (a)
      {
        got = 1;
        ++live;
        if (completed.load()) mc::fail("join completed while an association exists");
        --live;
      }
    }
    auto b = std::move(a0);
  });
  auto* b = h::make(scope.join(), r, tenv{{3}});
  b->link.then = [](void* p) noexcept { *static_cast<std::atomic<int>*>(p) = 1; };
  b->link.then_arg = &completed;
  b->start();
  t.join();
  mc::join_all();
  MC_CHECK(r.is(h::VAL));
  MC_CHECK(!scope.get_token().try_associate());
  mc::outcome("%d%d", got, r.ctx);
}
// ---- associate(sender): the association lives exactly as long as the operation
namespace
{
  template <class Sc>
  void nest(bool remote_two)
  {
    auto scope = std::make_unique<Sc>();
    h::chan c = h::pick_chan();
    h::mode m = h::pick_mode();
    int done[2] = {0, !remote_two}, st[2] = {};
    h::rec r[2], j;
    j.need = done; j.nneed = 2;
    {
      auto s = ex::associate(h::src{c, 5, m, &st[0], 0, &done[0]}, scope->get_token());
      h::go(std::move(s), r[0]);
    }
    if (remote_two) h::go(h::src{h::VAL, 6, h::REMOTE, &st[1], 0, &done[1]} | ex::associate(scope->get_token()), r[1]);
    auto* b = h::make(scope->join(), j, tenv{{3}});
    b->link.then = [](void* p) noexcept { static_cast<std::unique_ptr<Sc>*>(p)->reset(); };
    b->link.then_arg = &scope;
    b->start();
    mc::join_all();
    MC_CHECK(!scope && j.is(h::VAL) && st[0] == 1);
    MC_CHECK(c == h::STOP ? r[0].is(h::STOP) : r[0].is(c, 5));
    if (remote_two) MC_CHECK(r[1].is(h::VAL, 6) && st[1] == 1);
    mc::outcome("%s%d", r[0].str().c_str(), j.ctx);
  }
}
MC_SCENARIO(P12, nest_simple, {.preempt = -1, .stale = 1}, {.preempt = -1, .stale = 1}) { nest<sc>(false); }
MC_SCENARIO(P12, nest_two, {.preempt = 4}, {.preempt = -1}) { nest<sc>(true); }
MC_SCENARIO(P12, nest_counting, {.preempt = -1}, {.preempt = -1}) { nest<cs>(false); }

// join does not complete before the operation state is destroyed, nor before an unconnected sender is
MC_SCENARIO(P12, association_lifetime, {.preempt = -1})
{
  sc scope;
  int how = mc::choose(4, "how");
  bool close = mc::choose(2, "close");
  h::rec r, j, r2;
  auto tok = scope.get_token();
  auto s = std::make_unique<decltype(ex::associate(ex::just(1), scope.get_token()))>(ex::associate(ex::just(1), scope.get_token()));
  if (close) scope.close();
  int deferred = 0;
  h::go(scope.join(), j, h::sched_env<cnt_sched>{{&deferred}});
  MC_CHECK(j.n == 0);
  if (how == 0) s.reset();                       // destroyed without being connected
  else if (how == 1)                             // connected as an rvalue, kept after completion
  {
    auto* b = h::make(std::move(*s), r, h::no_env{}, false);
    s.reset();
    MC_CHECK(j.n == 0);
    b->start();
    MC_CHECK(r.is(h::VAL, 1) && j.n == 0);
    delete b;
  }
  else if (how == 2)                             // connected, never started
  {
    auto* b = h::make(std::move(*s), r, h::no_env{}, false);
    s.reset();
    MC_CHECK(j.n == 0);
    delete b;
  }
  else                                           // copied: a new association, refused when closed
  {
    auto copy = std::make_unique<decltype(ex::associate(ex::just(1), scope.get_token()))>(std::as_const(*s));
    s.reset();
    if (!close)
    {
      MC_CHECK(j.n == 0);
      h::go(std::move(*copy), r);
      MC_CHECK(r.is(h::VAL, 1));
    }
    else
    {
      MC_CHECK(j.n == 1);
      h::go(std::move(*copy), r);
      MC_CHECK(r.is(h::STOP));
    }
    copy.reset();
  }
  MC_CHECK(j.is(h::VAL) && deferred == 1);
  mc::outcome("%d%d", how, close);
}
// refused: stopped, never started, sender destroyed
MC_SCENARIO(P12, refused, {.preempt = -1})
{
  cs scope;
  h::rec r[3];
  int st = 0;
  scope.close();
  auto s = ex::associate(h::src{h::VAL, 1, h::INLINE, &st} | ex::then([t = tv(3)](tv x) { return x; }), scope.get_token());
  h::go(s, r[0]);
  auto s2 = std::move(s);
  h::go(std::move(s2), r[1]);
  for (int i = 0; i < 2; ++i) MC_CHECK(r[i].is(h::STOP));
  MC_CHECK(st == 0);
}
// ---- request_stop on a counting_scope
MC_SCENARIO(P12, stop_reaches_all, {.preempt = -1})
{
  cs  scope;
  int stops[2] = {}, st[2] = {};
  h::rec r[3], j;
  bool own = mc::choose(2, "receiver has a token");
  ex::inplace_stop_source ss;
  if (own) { h::go(ex::associate(h::ssrc(h::NONE, 1, 0, &stops[0], &st[0]), scope.get_token()), r[0], h::stop_env{ss.get_token()});
             h::go(ex::associate(h::ssrc(h::NONE, 2, 1, &stops[1], &st[1]), scope.get_token()), r[1], h::stop_env{ss.get_token()}); }
  else { h::go(ex::associate(h::ssrc(h::NONE, 1, 0, &stops[0], &st[0]), scope.get_token()), r[0]);
         h::go(ex::associate(h::ssrc(h::NONE, 2, 1, &stops[1], &st[1]), scope.get_token()), r[1]); }
  MC_CHECK(r[0].n == 0 && r[1].n == 0);
  scope.request_stop();
  MC_CHECK(r[0].is(h::STOP) && r[1].is(h::STOP) && stops[0] == 1 && stops[1] == 1);
  // later associations are admitted and see the request
  int st3 = 0, stops3 = 0;
  h::go(ex::associate(h::ssrc(h::NONE, 2, 2, &stops3, &st3), scope.get_token()), r[2]);
  MC_CHECK(r[2].is(h::STOP) && st3 == 1);
  h::go(scope.join(), j, tenv{{3}});
  MC_CHECK(j.is(h::VAL));
}
MC_SCENARIO(P12, stop_race, {.preempt = 4}, {.preempt = -1})
{
  auto scope = std::make_unique<cs>();
  int  done[1] = {};
  h::chan c = mc::choose(2, "never") ? h::NONE : h::VAL;
  h::rec r, j;
  j.need = done; j.nneed = 1;
  ex::inplace_stop_source ss;
  bool own = mc::choose(2, "receiver has a token");
  std::thread t([s = scope.get()] { s->request_stop(); });
  if (own) h::go(ex::associate(h::ssrc(c, 1, 0, nullptr, nullptr, done), scope->get_token()), r, h::stop_env{ss.get_token()});
  else h::go(ex::associate(h::ssrc(c, 1, 0, nullptr, nullptr, done), scope->get_token()), r);
  t.join();
  h::go(scope->join(), j, tenv{{3}});
  mc::join_all();
  scope.reset();
  MC_CHECK(j.is(h::VAL) && (c == h::NONE ? r.is(h::STOP) : r.is(h::STOP) || r.is(h::VAL, 1)));
  mc::outcome("%s", r.str().c_str());
}
// ---- a throwing connect, copy or move gives the association back
namespace
{
  struct bad_snd
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures<ex::set_value_t()>;
    tv* keep = nullptr;
    int throw_connect = 0;
    tv  payload{3};
    explicit bad_snd(int tc) : throw_connect(tc) {}
    bad_snd(bad_snd&& o) noexcept(false) : throw_connect(o.throw_connect), payload(o.payload) {}
    bad_snd(bad_snd const & o) : throw_connect(o.throw_connect), payload(o.payload) {}
    template <class R> struct op
    {
      R r;
      explicit op(R rr) : r(std::move(rr)) {}
      op(op&&) = delete;
      void start() & noexcept { ex::set_value(std::move(r)); }
    };
    template <class R> auto connect(R r) const -> op<R> { if (throw_connect) throw h::boom{}; return op<R>(std::move(r)); }
  };
}
MC_SCENARIO(P12, exceptions, {.preempt = 0})
{
  bool counting = mc::choose(2, "scope");
  h::throw_at = 0;
  int  tc = mc::choose(2, "connect throws");
  bool lv = mc::choose(2, "lvalue");
  h::rec r, j;
  bool thrown = false;
  auto run = [&](auto& scope) {
    try
    {
      bad_snd b(tc);
      h::throw_at = mc::choose(8, "throwing copy");
      auto s = ex::associate(std::move(b), scope.get_token());
      if (lv) { auto* x = new h::box<decltype(s)&, h::no_env>(s, &r, {}, true); x->start(); }
      else { auto* x = new h::box<decltype(s), h::no_env>(std::move(s), &r, {}, true); x->start(); }
    }
    catch (h::boom const &) { thrown = true; }
    h::throw_at = 0;
    MC_CHECK(thrown ? r.n == 0 : r.is(h::VAL));
    int deferred = 0;
    h::go(scope.join(), j, h::sched_env<cnt_sched>{{&deferred}});
    MC_CHECK(j.is(h::VAL) && deferred == 0);
  };
  if (counting) { cs scope; run(scope); } else { sc scope; run(scope); }
  mc::outcome("%d", thrown);
}
// destroying a scope which still needs a join terminates; others do not
