// P01: stop sources, tokens and callbacks.
#include "common.hpp"

namespace
{
  struct count_cb { int* n; void operator()() noexcept { ++*n; } };
  using cb_t = ex::inplace_stop_callback<count_cb>;
}  // namespace

// two requesters, one pre-registered callback, one late observer
MC_SCENARIO(P01, two_requesters, {.preempt = -1}, {.preempt = -1, .stale = 1, .spurious = 1})
{
  ex::inplace_stop_source s;
  int n = 0, data[2] = {0, 0}, sum = 0;
  bool r[2];
  auto f = [&]() noexcept { ++n; };
  struct cbk { decltype(f)* g; void operator()() noexcept { (*g)(); } };
  {
    ex::inplace_stop_callback<cbk> cb(s.get_token(), cbk{&f});
    std::thread a([&] { r[0] = s.request_stop(); });
    std::thread b([&] { r[1] = s.request_stop(); });
    a.join(); b.join();
  }
  MC_CHECK(int(r[0]) + int(r[1]) == 1);
  MC_CHECK(n == 1);
  MC_CHECK(s.stop_requested() && s.get_token().stop_requested());
  mc::outcome("%d%d", r[0], r[1]);
}

// visibility: what was written before a successful request_stop is visible to callbacks and observers
MC_SCENARIO(P01, visibility_token, {.preempt = -1, .stale = 1})
{
  ex::inplace_stop_source s;
  int data = 0;
  std::thread a([&] { data = 42; s.request_stop(); });
  std::thread b([&] { if (s.get_token().stop_requested()) { MC_CHECK(data == 42); mc::outcome("tok"); } });
  std::thread c([&] { if (s.stop_requested()) { MC_CHECK(data == 42); mc::outcome("src"); } });
  a.join(); b.join(); c.join();
}
MC_SCENARIO(P01, visibility_late_callback, {.preempt = -1, .stale = 1})
{
  ex::inplace_stop_source s;
  int data = 0, seen = -1;
  std::thread a([&] { data = 42; s.request_stop(); });
  std::thread b([&] {
    auto f = [&]() noexcept { seen = data; };
    ex::inplace_stop_callback<decltype(f)> cb(s.get_token(), f);
  });
  a.join(); b.join();
  MC_CHECK(seen == -1 || seen == 42);
  mc::outcome("%d", seen);
}

// registration racing with the request: runs exactly once if it stays registered
MC_SCENARIO(P01, register_vs_request, {.preempt = -1, .spurious = 1}, {.preempt = -1, .stale = 1, .spurious = 1})
{
  ex::inplace_stop_source s;
  int n1 = 0, n2 = 0;
  bool at_destroy1 = false;
  std::thread a([&] { MC_CHECK(s.request_stop()); });
  cb_t c1(s.get_token(), count_cb{&n1});
  {
    std::optional<cb_t> c2;
    c2.emplace(s.get_token(), count_cb{&n2});
    a.join();
    MC_CHECK(n1 == 1 && n2 == 1);
  }
  (void) at_destroy1;
}

// two threads registering concurrently with the request; own callback memory is freed right after deregistration
MC_SCENARIO(P01, register_deregister_vs_request, {.preempt = 3}, {.preempt = 5, .spurious = 1})
{
  ex::inplace_stop_source s;
  auto user = [&] {
    int* n = new int(0);
    bool before = s.stop_requested();
    {
      auto f = [n]() noexcept { ++*n; };
      ex::inplace_stop_callback<decltype(f)> cb(s.get_token(), f);
    }
    bool after = s.stop_requested();
    int v = *n;
    delete n;
    MC_CHECK(v <= 1);
    if (before) MC_CHECK(v == 1);
    if (!after) MC_CHECK(v == 0);
    mc::outcome("%d", v);
  };
  std::thread a([&] { s.request_stop(); });
  std::thread b(user);
  user();
  a.join(); b.join();
}

// deregistration waits for a running invocation
MC_SCENARIO(P01, destroy_waits, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  ex::inplace_stop_source s;
  std::atomic<int> inside{0};
  int* payload = new int(5);
  bool ran = false;
  auto f = [&]() noexcept {
    inside.store(1, std::memory_order_relaxed);
    mc::point(&inside);
    ran = *payload == 5;
    inside.store(2, std::memory_order_relaxed);
  };
  auto* cb = new ex::inplace_stop_callback<decltype(f)>(s.get_token(), f);
  std::thread a([&] { s.request_stop(); });
  delete cb;
  MC_CHECK(inside.load(std::memory_order_relaxed) != 1);
  bool r = ran;  // must not race with the callback
  delete payload;
  a.join();
  mc::outcome("%d", r);
}

// the same with the callback registered by another thread, two callbacks in the list
MC_SCENARIO(P01, destroy_waits_two, {.preempt = 3}, {.preempt = 5})
{
  ex::inplace_stop_source s;
  int  n1 = 0, n2 = 0;
  auto* c1 = new cb_t(s.get_token(), count_cb{&n1});
  auto* c2 = new cb_t(s.get_token(), count_cb{&n2});
  std::thread a([&] { s.request_stop(); });
  std::thread b([&] { delete c1; int x = n1; mc::outcome("a%d", x); });
  delete c2;
  int x = n2;
  mc::outcome("b%d", x);
  a.join(); b.join();
  MC_CHECK(n1 <= 1 && n2 <= 1);
}

// a callback destroys itself inside its invocation; a second thread requests too; a second callback follows
namespace
{
  struct self_del;
  struct self_fn { self_del* p; void operator()() noexcept; };
  struct self_del { int* n; std::optional<ex::inplace_stop_callback<self_fn>> cb; };
  void self_fn::operator()() noexcept { ++*p->n; delete p; }
}  // namespace
MC_SCENARIO(P01, destroy_self, {.preempt = -1})
{
  ex::inplace_stop_source s;
  int n = 0, m = 0;
  cb_t other(s.get_token(), count_cb{&m});
  auto* p = new self_del{&n, {}};
  p->cb.emplace(s.get_token(), self_fn{p});
  std::thread a([&] { s.request_stop(); });
  std::thread b([&] { s.request_stop(); });
  a.join(); b.join();
  MC_CHECK(n == 1 && m == 1);
}

// a callback destroys another callback that has not run yet / has already run
namespace
{
  struct killer { std::optional<cb_t>* victim; int* n; void operator()() noexcept { ++*n; victim->reset(); } };
}
MC_SCENARIO(P01, callback_destroys_other, {.preempt = -1})
{
  ex::inplace_stop_source s;
  int nk = 0, nv = 0;
  std::optional<cb_t> victim;
  unsigned order = mc::choose(2);
  if (order == 0) victim.emplace(s.get_token(), count_cb{&nv});
  ex::inplace_stop_callback<killer> k(s.get_token(), killer{&victim, &nk});
  if (order == 1) victim.emplace(s.get_token(), count_cb{&nv});
  std::thread a([&] { s.request_stop(); });
  std::thread b([&] { s.request_stop(); });
  a.join(); b.join();
  MC_CHECK(nk == 1);
  // callbacks are run one by one: a victim that ran before the killer counted once, otherwise never
  MC_CHECK(nv <= 1);
  mc::outcome("%u%d", order, nv);
}

// a callback registers another callback and requests stop again
namespace
{
  struct nester
  {
    ex::inplace_stop_source* s; int* n; int* inner; std::optional<cb_t>* keep;
    void operator()() noexcept
    {
      ++*n;
      MC_CHECK(s->stop_requested());
      MC_CHECK(!s->request_stop());
      keep->emplace(s->get_token(), count_cb{inner});
      MC_CHECK(*inner == 1);  // ran inside the registration
      keep->reset();
    }
  };
}
MC_SCENARIO(P01, reentrant, {.preempt = -1})
{
  ex::inplace_stop_source s;
  int n = 0, inner = 0;
  std::optional<cb_t> keep;
  ex::inplace_stop_callback<nester> k(s.get_token(), nester{&s, &n, &inner, &keep});
  std::thread a([&] { s.request_stop(); });
  std::thread b([&] { (void) s.get_token().stop_requested(); s.request_stop(); });
  a.join(); b.join();
  MC_CHECK(n == 1 && inner == 1);
}

// three callbacks with every choice of deregistrations by another thread while the request runs
MC_SCENARIO(P01, list_integrity, {.preempt = 2}, {.preempt = 4})
{
  ex::inplace_stop_source s;
  int n[3] = {0, 0, 0};
  std::optional<cb_t> c[3];
  for (int i = 0; i < 3; ++i) c[i].emplace(s.get_token(), count_cb{&n[i]});
  unsigned first = mc::choose(3), second = mc::choose(3);
  bool dereg_before[3] = {};
  std::thread a([&] { MC_CHECK(s.request_stop()); });
  int v1 = 0, v2 = 0;
  c[first].reset();
  v1 = n[first];
  if (second != first) { c[second].reset(); v2 = n[second]; }
  a.join();
  (void) dereg_before;
  for (unsigned i = 0; i < 3; ++i)
    if (i != first && i != second) MC_CHECK(n[i] == 1);
  MC_CHECK(n[first] == v1);                       // never runs after deregistration
  if (second != first) MC_CHECK(n[second] == v2);
  MC_CHECK(n[0] <= 1 && n[1] <= 1 && n[2] <= 1);
  mc::outcome("%u%u:%d%d%d", first, second, n[0], n[1], n[2]);
}

// registration from two threads, no stop: list must be intact, then a request runs all of them
MC_SCENARIO(P01, concurrent_registration, {.preempt = -1, .spurious = 1})
{
  ex::inplace_stop_source s;
  int n[2] = {0, 0};
  std::optional<cb_t> c[2];
  std::thread a([&] { c[0].emplace(s.get_token(), count_cb{&n[0]}); });
  c[1].emplace(s.get_token(), count_cb{&n[1]});
  a.join();
  MC_CHECK(s.request_stop());
  MC_CHECK(n[0] == 1 && n[1] == 1);
}

// sequential histories against a reference model: register(i) / deregister(i) / request on two slots
MC_SCENARIO(P01, histories, {.preempt = 0}, {.preempt = 0})
{
  ex::inplace_stop_source s;
  bool stopped = false, reg[2] = {};
  int  n[2] = {0, 0}, want[2] = {0, 0};
  std::optional<cb_t> c[2];
  for (int step = 0; step < 5; ++step)
  {
    unsigned o = mc::choose(5);
    if (o < 2)
    {
      if (!reg[o]) { c[o].emplace(s.get_token(), count_cb{&n[o]}); reg[o] = true; if (stopped) ++want[o]; }
    }
    else if (o < 4)
    {
      c[o - 2].reset(); reg[o - 2] = false;
    }
    else
    {
      bool r = s.request_stop();
      MC_CHECK(r == !stopped);
      if (!stopped) for (int i = 0; i < 2; ++i) if (reg[i]) ++want[i];
      stopped = true;
    }
    MC_CHECK(n[0] == want[0] && n[1] == want[1]);
    MC_CHECK(s.stop_requested() == stopped);
    MC_CHECK(s.get_token().stop_requested() == stopped);
    MC_CHECK(s.get_token().stop_possible());
  }
  mc::outcome("%d%d%d", n[0], n[1], stopped);
}

MC_SCENARIO(P01, tokens, {.preempt = 0})
{
  ex::inplace_stop_source s, t;
  auto a = s.get_token(), b = s.get_token(), c = t.get_token();
  ex::inplace_stop_token none;
  MC_CHECK(a == b && !(a == c) && !(a == none));
  MC_CHECK(!none.stop_possible() && !none.stop_requested() && a.stop_possible());
  unsigned k = mc::choose(4);
  if (k == 1) s.request_stop();
  auto d = std::move(b);
  MC_CHECK(d == a && d.stop_requested() == (k == 1));
  if (k == 2) { a.swap(c); MC_CHECK(a == t.get_token() && c == s.get_token()); }
  if (k == 3) { a = c; MC_CHECK(a == t.get_token()); t.request_stop(); MC_CHECK(a.stop_requested() && !s.stop_requested()); }
  ex::never_stop_token nv;
  MC_CHECK(!nv.stop_possible() && !nv.stop_requested());
  int n = 0;
  { auto f = [&]() noexcept { ++n; }; ex::stop_callback_for_t<ex::never_stop_token, decltype(f)> cb(nv, f);
    ex::inplace_stop_callback<decltype(f)> cb2(none, f); }
  MC_CHECK(n == 0);
  mc::outcome("%u", k);
}
