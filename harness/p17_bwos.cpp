// P17: the block-based work-stealing queue.
#include "common.hpp"
#include <exec/detail/bwos_lifo_queue.hpp>
#include <deque>
#include <map>
#include <vector>

namespace
{
  struct item
  {
    int id;
    int payload;
  };
  using q_t = exec::bwos::lifo_queue<item*>;

  // ---------------------------------------------------------------------------------------------
  // Sequential reference: blocks with absolute numbers.
  struct model
  {
    struct blk
    {
      int             tail = 0;  // next slot to write
      std::deque<int> items;
    };
    int                nb, bs;
    std::map<int, blk> b;
    int                cur = 0, start = 0;
    model(int n, int s) : nb(n), bs(s) { b[0]; }
    bool push(int id)
    {
      if (b[cur].tail == bs)
      {
        if (nb == 1) return false;
        int old = cur + 1 - nb;
        if (b.count(old) && !b[old].items.empty()) return false;
        if (old >= start) start = old + 1;
        b.erase(old);
        ++cur;
        b[cur] = blk{};
      }
      b[cur].items.push_back(id);
      b[cur].tail++;
      return true;
    }
    int pop()
    {
      for (;;)
      {
        auto& k = b[cur];
        if (!k.items.empty())
        {
          int r = k.items.back();
          k.items.pop_back();
          k.tail--;
          return r;
        }
        if (cur == start) return -1;
        b.erase(cur);
        --cur;
      }
    }
    int steal()
    {
      for (int i = start; i < cur; ++i)
        if (!b[i].items.empty())
        {
          int r = b[i].items.front();
          b[i].items.pop_front();
          return r;
        }
      return -1;
    }
  };

  void history(int nb, int bs, int depth)
  {
    q_t   q(nb, bs);
    MC_CHECK(q.num_blocks() == std::size_t(nb) && q.block_size() == std::size_t(bs));
    model m(nb, bs);
    item  it[16];
    int   used = 0;
    for (int s = 0; s < depth; ++s)
      switch (mc::choose(4))
      {
      case 0:
      {
        it[used] = item{used, 0};
        bool a = q.push_back(&it[used]);
        bool e = m.push(used);
        MC_CHECK(a == e);
        ++used;
        break;
      }
      case 1:
      {
        item* a = q.pop_back();
        int   e = m.pop();
        MC_CHECK((a ? a->id : -1) == e);
        break;
      }
      case 2:
      {
        item* a = q.steal_front();
        int   e = m.steal();
        MC_CHECK((a ? a->id : -1) == e);
        break;
      }
      case 3:  // several at once: takes as many as single pushes would have taken
      {
        int   k = 2 + int(mc::choose(2, "n"));
        item* v[4];
        for (int i = 0; i < k; ++i) it[used + i] = item{used + i, 0}, v[i] = &it[used + i];
        int n = int(q.push_back(v, v + k) - v);
        int e = 0;
        while (e < k && m.push(used + e)) ++e;
        MC_CHECK(n == e);
        used += k;
        if (used > 11) mc::discard();
        break;
      }
      }
    for (;;)
    {
      item* a = q.pop_back();
      int   e = m.pop();
      MC_CHECK((a ? a->id : -1) == e);
      if (!a) break;
    }
  }
}  // namespace
MC_SCENARIO(P17, history_1x2, {.preempt = -1, .depth = 7}, {.preempt = -1, .depth = 9}) { history(1, 2, mc::depth()); }
MC_SCENARIO(P17, history_2x1, {.preempt = -1, .depth = 7}, {.preempt = -1, .depth = 9}) { history(2, 1, mc::depth()); }
MC_SCENARIO(P17, history_2x2, {.preempt = -1, .depth = 7}, {.preempt = -1, .depth = 9}) { history(2, 2, mc::depth()); }
MC_SCENARIO(P17, history_4x1, {.preempt = -1, .depth = 7}, {.preempt = -1, .depth = 9}) { history(4, 1, mc::depth()); }
MC_SCENARIO(P17, history_4x2, {.preempt = -1, .depth = 6}, {.preempt = -1, .depth = 8}) { history(4, 2, mc::depth()); }

namespace
{
  // ---------------------------------------------------------------------------------------------
  // One owner runs `prog` ('p' push, 'o' pop, 'b' bulk push of two, '?' either push or pop); thieves steal.
  long& pushed(int i) { return mc::ctr(i); }       // 1 = in the queue or handed out
  long& handed(int i) { return mc::ctr(20 + i); }  // handed out
  long& stealing() { return mc::ctr(50); }
  long& npushed() { return mc::ctr(51); }
  long& npopped() { return mc::ctr(52); }
  long& nstolen() { return mc::ctr(53); }

  void hand(item* x, bool thief)
  {
    MC_CHECK(x->payload == 100 + x->id);
    MC_CHECK(pushed(x->id) == 1);
    MC_CHECK(handed(x->id) == 0);
    handed(x->id) = thief ? 2 : 1;
    delete x;
  }

  void race(int nb, int bs, char const * prog, int thieves, int steals)
  {
    auto* q = new q_t(nb, bs);
    int   used = 0;
    auto  mk = [&] {
      auto* x = new item{used, 100 + used};
      ++used;
      return x;
    };
    auto start = [&](int from) {
      std::vector<std::thread> ts;
      for (int t = from; t < thieves; ++t)
        ts.emplace_back([=] {
          for (int i = 0; i < steals; ++i)
          {
            ++stealing();
            item* x = q->steal_front();
            --stealing();
            if (x)
            {
              mc::outcome("t%d=%d", t, x->id);
              ++nstolen();
              hand(x, true);
            }
          }
        });
      return ts;
    };
    auto pop = [&](bool quiet) {
      // items a thief is about to take may or may not still be there for us
      item* x = q->pop_back();
      if (!x)
      {
        MC_CHECK(npushed() - npopped() - nstolen() <= (quiet ? 0 : stealing()));
        return false;
      }
      ++npopped();
      int id = x->id;
      mc::outcome("o=%d", id);
      if (quiet)
        for (int j = id + 1; j < used; ++j) MC_CHECK(!pushed(j) || handed(j));
      hand(x, false);
      return true;
    };
    auto push = [&] {
      item* x = mk();
      int   id = x->id;
      pushed(id) = 1;
      ++npushed();
      if (!q->push_back(x))
      {
        pushed(id) = 0;
        --npushed();
        // Refused: the block that would be reused must still have held something.
        MC_CHECK(npushed() - npopped() - nstolen() + stealing() > 0);
        if (nb == 1) MC_CHECK(npushed() - npopped() == bs);
        delete x;
        mc::outcome("full");
      }
    };
    std::vector<std::thread> ts;
    for (char const * p = prog; *p; ++p)
    {
      char c = *p;
      if (c == '|') { ts = start(0); continue; }
      if (c == '?') c = mc::choose(2) ? 'p' : 'o';
      if (c == 'p') push();
      else if (c == 'o') pop(false);
      else
      {
        item* v[2] = {mk(), mk()};
        int   a = v[0]->id;
        pushed(a) = pushed(a + 1) = 1;
        npushed() += 2;
        auto* e = q->push_back(v, v + 2);
        for (item** i = e; i != v + 2; ++i)
        {
          pushed((*i)->id) = 0;
          --npushed();
          delete *i;
        }
      }
    }
    for (auto& t: ts) t.join();
    while (pop(true)) {}
    for (int i = 0; i < used; ++i) MC_CHECK(!pushed(i) || handed(i));
    delete q;
  }
}  // namespace
// '|' marks where the thieves come into being: what precedes it happens before they start
MC_SCENARIO(P17, race_4x1, {.preempt = -1}) { race(4, 1, "pp|????", 1, 3); }
MC_SCENARIO(P17, race_2x1, {.preempt = -1}) { race(2, 1, "pp|?????", 1, 3); }
MC_SCENARIO(P17, race_2x2, {.preempt = -1}) { race(2, 2, "ppp|?????", 1, 3); }
MC_SCENARIO(P17, race_1x2, {.preempt = -1}) { race(1, 2, "|?????", 1, 3); }
MC_SCENARIO(P17, race_two_thieves, {.preempt = 3}, {.preempt = -1}) { race(4, 1, "ppp|???", 2, 2); }
MC_SCENARIO(P17, race_two_thieves_2x2, {.preempt = 3}, {.preempt = -1}) { race(2, 2, "pp|????", 2, 2); }
MC_SCENARIO(P17, takeover_regrant, {.preempt = -1}) { race(2, 2, "ppp|ooppp", 1, 2); }
MC_SCENARIO(P17, takeover_regrant_two, {.preempt = -1}) { race(2, 2, "ppp|ooppp", 2, 2); }
MC_SCENARIO(P17, wraparound, {.preempt = -1}) { race(2, 1, "p|ppppo", 1, 4); }
MC_SCENARIO(P17, wraparound_4, {.preempt = 4}, {.preempt = -1}) { race(4, 1, "pp|pppppo", 1, 5); }
MC_SCENARIO(P17, bulk, {.preempt = -1}) { race(2, 2, "b|bobo", 1, 2); }
MC_SCENARIO(P17, bulk_wrap, {.preempt = -1}) { race(2, 2, "bb|bobb", 1, 4); }
MC_SCENARIO(P17, stale, {.preempt = 3, .stale = 2}, {.preempt = 4, .stale = 3}) { race(2, 2, "ppp|ooppp", 1, 2); }
MC_SCENARIO(P17, stale_2x1, {.preempt = 2, .stale = 2}, {.preempt = 3, .stale = 3}) { race(2, 1, "pp|????", 1, 2); }
MC_SCENARIO(P17, stale_two_thieves, {.preempt = 2, .stale = 2}, {.preempt = 3, .stale = 3}) { race(2, 1, "pp|pop", 2, 2); }
