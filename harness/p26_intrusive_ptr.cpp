// P26: intrusive reference counting with reserved flag bits.
#include "common.hpp"
#include <stdexec/__detail/__intrusive_ptr.hpp>
#include <optional>
#include <vector>

namespace
{
  // A managed object; its plain data is written by the owners while they hold a reference (each owner has its own
  // slot) and read by the destructor, so that a missing happens-before edge is a data race.
  template <std::size_t Bits>
  struct obj : STDEXEC::__enable_intrusive_from_this<obj<Bits>, Bits>
  {
    int   slot[6] = {};
    int   expect;  // how many slots the destructor has to see
    h::tv heap{1};
    explicit obj(int e) : expect(e) { mc::ctr(0)++; }
    ~obj()
    {
      mc::ctr(1)++;
      int n = 0;
      for (int s: slot) n += s;
      MC_CHECK(n == expect);
      MC_CHECK(heap.get() == 1);
    }
    auto inc() noexcept { return this->__inc_ref(); }
    auto dec() noexcept { return this->__dec_ref(); }
    template <std::size_t B> bool is() const noexcept { return this->template __is_set<B>(); }
    template <std::size_t B> bool set() noexcept { return __bit<B>(this->template __set_bit<B>()); }
    template <std::size_t B> bool clear() noexcept { return __bit<B>(this->template __clear_bit<B>()); }
  };
  template <std::size_t Bits> using ptr = STDEXEC::__intrusive_ptr<obj<Bits>, Bits>;
  template <std::size_t Bits> auto make(int e) { return STDEXEC::__make_intrusive<obj<Bits>, Bits>(e); }
  void one() { MC_CHECK(mc::ctr(0) == 1 && mc::ctr(1) == 1); }
}  // namespace

// n owners each use the object and drop (or copy, then drop both) their reference; the last one destroys it
template <std::size_t Bits>
static void drop(int n, bool copies)
{
  {
    auto p = make<Bits>(n + 1);
    std::vector<std::thread> ts;
    for (int i = 0; i < n; ++i)
      ts.emplace_back([q = p, i, copies]() mutable {
        q->slot[i] = 1;
        if (copies)
        {
          auto r = q;
          q.reset();
          MC_CHECK(!q && r->slot[i] == 1);
          auto s = r->__intrusive_from_this();
          r = std::move(s);
        }
        q = ptr<Bits>{};
      });
    p->slot[5] = 1;
    p.reset();
    for (auto& t: ts) t.join();
  }
  one();
}
MC_SCENARIO(P26, drop_3, {.preempt = -1}) { drop<0>(2, false); }
MC_SCENARIO(P26, drop_4, {.preempt = -1}) { drop<2>(3, false); }
MC_SCENARIO(P26, drop_copies, {.preempt = -1}) { drop<0>(2, true); }
MC_SCENARIO(P26, drop_copies_3, {.preempt = 3}, {.preempt = -1}) { drop<1>(3, true); }

// references handed over by hand (inc/dec on the object), as operation states do
MC_SCENARIO(P26, manual, {.preempt = -1})
{
  {
    auto  p = make<1>(3);
    auto* o = p.get();
    MC_CHECK(__count(o->inc()) == 1);
    MC_CHECK(__count(o->inc()) == 2);
    std::thread a([=] { o->slot[0] = 1; auto n = __count(o->dec()); mc::outcome("a%zu", n); });
    std::thread b([=] { o->slot[1] = 1; auto n = __count(o->dec()); mc::outcome("b%zu", n); });
    o->slot[2] = 1;
    p.reset();
    a.join();
    b.join();
  }
  one();
}

// flag bits: set and cleared concurrently with counting; each transition is reported to exactly one caller and
// orders what was written before it
MC_SCENARIO(P26, bits_race, {.preempt = -1})
{
  {
    auto p = make<2>(0);
    int  data[2] = {};
    int  firsts = 0;
    MC_CHECK(!p->is<0>() && !p->is<1>());
    int results[2] = {};
    auto body = [&](int i) {
      return [&, i, q = p]() mutable {
        data[i] = 1;
        results[i] = q->set<0>();
        if (results[i]) MC_CHECK(data[1 - i] == 1);  // the other one was first: its writes are visible
        auto r = q;                                  // counting does not disturb the bits
        MC_CHECK(q->is<0>() && r->is<0>() && !q->is<1>());
      };
    };
    std::thread a(body(0)), b(body(1));
    a.join();
    b.join();
    firsts = !results[0] + !results[1];
    MC_CHECK(firsts == 1);
    MC_CHECK(p->is<0>() && !p->is<1>());
    MC_CHECK(p->clear<0>() && !p->clear<0>());
    MC_CHECK(__count(p->inc()) == 1 && __count(p->dec()) == 2);
  }
  one();
}
MC_SCENARIO(P26, bits_and_last_drop, {.preempt = -1})
{
  {
    auto p = make<2>(2);
    int  set0 = 0, set1 = 0, clr = 0;
    std::thread a([&, q = p]() mutable { q->slot[0] = 1; set0 = !q->set<0>(); q->set<1>(); q.reset(); });
    std::thread b([&, q = p]() mutable { q->slot[1] = 1; set1 = !q->set<0>(); clr = q->clear<1>(); q.reset(); });
    p.reset();
    a.join();
    b.join();
    MC_CHECK(set0 + set1 == 1);
    mc::outcome("%d%d", set0, clr);
  }
  one();
}
MC_SCENARIO(P26, bits_stale, {.preempt = 3, .stale = 2}, {.preempt = 4, .stale = 4})
{
  {
    auto p = make<1>(2);
    std::thread a([&, q = p]() mutable { q->slot[0] = 1; q->set<0>(); });
    std::thread b([&, q = p]() mutable { q->slot[1] = 1; bool s = q->is<0>(); q->set<0>(); MC_CHECK(q->is<0>()); (void) s; });
    p.reset();
    a.join();
    b.join();
  }
  one();
}

// every single-threaded sequence of pointer operations on three handles to two objects against counts
MC_SCENARIO(P26, histories, {.preempt = -1, .depth = 4}, {.preempt = -1, .depth = 5})
{
  static long alive[2], ever;
  alive[0] = alive[1] = ever = 0;
  struct n : STDEXEC::__enable_intrusive_from_this<n, 1>
  {
    int   k;
    h::tv v{7};
    explicit n(int i) : k(i) { ++alive[k]; }
    ~n() { --alive[k]; MC_CHECK(v.get() == 7); }
    auto inc() noexcept { return this->__inc_ref(); }
    auto dec() noexcept { return this->__dec_ref(); }
    bool set() noexcept { return __bit<0>(this->template __set_bit<0>()); }
    bool is() noexcept { return this->template __is_set<0>(); }
  };
  using P = STDEXEC::__intrusive_ptr<n, 1>;
  {
    P    h[3];
    int  m[3] = {-1, -1, -1};
    bool bit[2] = {};
    int  gen = 0;
    auto cnt = [&](int k) { return (m[0] == k) + (m[1] == k) + (m[2] == k); };
    for (int s = 0; s < mc::depth(); ++s)
    {
      int op = int(mc::choose(8)), a = int(mc::choose(3)), b = op == 0 || op == 3 || op == 7 ? 0 : int(mc::choose(3));
      switch (op)
      {
      case 0:
        if (gen == 2 || b) mc::discard();
        h[a] = STDEXEC::__make_intrusive<n, 1>(gen);
        m[a] = gen++;
        break;
      case 1: h[a] = h[b]; m[a] = m[b]; break;
      case 2:
        if (a == b) mc::discard();  // self-move leaves the pointer empty or unchanged, not specified
        h[a] = std::move(h[b]);
        m[a] = m[b];
        m[b] = -1;
        break;
      case 3: if (b) mc::discard(); h[a].reset(); m[a] = -1; break;
      case 4: h[a].swap(h[b]); std::swap(m[a], m[b]); break;
      case 5: if (m[b] < 0) mc::discard(); h[a] = static_cast<STDEXEC::__enable_intrusive_from_this<n, 1>*>(h[b].get()); m[a] = m[b]; break;
      case 6: { P t(h[b]); P u(std::move(t)); MC_CHECK(!t); h[a] = u; m[a] = m[b]; break; }
      case 7: if (m[a] < 0 || b) mc::discard(); MC_CHECK(h[a]->set() == bit[m[a]]); bit[m[a]] = true; break;
      }
      for (int k = 0; k < 2; ++k) MC_CHECK(alive[k] == (k < gen && cnt(k) > 0));
      for (int i = 0; i < 3; ++i)
      {
        MC_CHECK(bool(h[i]) == (m[i] >= 0) && !h[i] == (m[i] < 0) && (h[i] == nullptr) == (m[i] < 0));
        if (m[i] >= 0)
        {
          MC_CHECK(h[i]->k == m[i] && (*h[i]).k == m[i]);
          MC_CHECK(int(__count(h[i]->inc())) == cnt(m[i]));
          MC_CHECK(int(__count(h[i]->dec())) == cnt(m[i]) + 1);
          MC_CHECK(h[i]->is() == bit[m[i]]);
        }
        for (int j = 0; j < 3; ++j) MC_CHECK((h[i] == h[j]) == (m[i] == m[j]));
      }
    }
  }
  MC_CHECK(alive[0] == 0 && alive[1] == 0);
}
