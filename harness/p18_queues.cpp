// P18: the intrusive lock-free queues and the intrusive lists.
#include "common.hpp"
#include <exec/detail/atomic_intrusive_queue.hpp>
#include <stdexec/__detail/__atomic_intrusive_queue.hpp>
#include <stdexec/__detail/__intrusive_mpsc_queue.hpp>
#include <stdexec/__detail/__intrusive_queue.hpp>
#include <stdexec/__detail/__intrusive_slist.hpp>
#include <deque>
#include <vector>

namespace
{
  using namespace STDEXEC;

  struct node  // plain next
  {
    node* next = nullptr;
    int   id = -1;
    int   payload = 0;
  };
  struct anode  // atomic next
  {
    std::atomic<anode*> next{nullptr};
    int                 id = -1;
    int                 payload = 0;
  };

  // counters: 0..15 push began, 16..31 push returned, 32..47 popped (uninstrumented)
  long& began(int i) { return mc::ctr(i); }
  long& ended(int i) { return mc::ctr(16 + i); }
  long& popped(int i) { return mc::ctr(32 + i); }

  // ids are producer * 4 + index
  void got(int id, int payload, bool freed_order = true)
  {
    MC_CHECK(payload == 100 + id);  // written before the push, plain
    MC_CHECK(popped(id) == 0);
    MC_CHECK(began(id) == 1);
    popped(id) = 1;
    for (int k = id & ~3; freed_order && k < id; ++k) MC_CHECK(popped(k) == 1);  // FIFO per producer
  }

  // -------------------------------------------------------------------------------------------
  // The multi-producer single-consumer queue: P producers push K nodes each; the consumer polls
  // a bounded number of times meanwhile and drains at the end.
  void mpsc(int producers, int k, int polls, bool exact = true)
  {
    using q_t = __intrusive_mpsc_queue<&anode::next>;
    auto* q = new q_t;
    std::vector<std::thread> ts;
    for (int p = 0; p < producers; ++p)
      ts.emplace_back([=] {
        for (int i = 0; i < k; ++i)
        {
          int    id = p * 4 + i;
          auto*  n = new anode;
          n->id = id;
          n->payload = 100 + id;
          long before[16];
          for (int j = 0; j < 16; ++j) before[j] = popped(j);
          began(id) = 1;
          bool was_empty = q->push_back(n);
          ended(id) = 1;
          if (!was_empty)
          {
            // there was some other node that had not been handed out when this push began
            bool other = false;
            for (int j = 0; j < 16; ++j) other |= j != id && began(j) && !before[j];
            MC_CHECK(other);
          }
          mc::outcome("%d:%d", id, was_empty);
        }
      });
    auto poll = [&] {
      long done = 0, out = 0, before = 0;
      for (int j = 0; j < 16; ++j) before += ended(j), done += popped(j);
      anode* n = q->pop_front();
      if (n)
      {
        int id = n->id;
        got(id, n->payload);
        delete n;  // the queue must not touch it any more
        return true;
      }
      // Empty may only be reported if nothing whose push had completed remained, or a push was still under way.
      bool inflight = false;
      for (int j = 0; j < 16; ++j) inflight |= began(j) && !ended(j), out += popped(j);
      if (exact && before > done && !inflight)
      {
        bool any = false;  // a push which ended during the pop
        for (int j = 0; j < 16; ++j) any |= ended(j) == 1 && before == 0;
        long now = 0;
        for (int j = 0; j < 16; ++j) now += ended(j);
        MC_CHECK(any || now > before);
      }
      return false;
    };
    for (int i = 0; i < polls; ++i) poll();
    for (auto& t: ts) t.join();
    while (poll()) {}
    for (int p = 0; p < producers; ++p)
      for (int i = 0; i < k; ++i) MC_CHECK(popped(p * 4 + i) == 1);
    delete q;
  }
}  // namespace
MC_SCENARIO(P18, mpsc_1x3, {.preempt = -1}) { mpsc(1, 3, 3); }
MC_SCENARIO(P18, mpsc_2x1, {.preempt = -1}) { mpsc(2, 1, 2); }
MC_SCENARIO(P18, mpsc_2x2, {.preempt = -1}) { mpsc(2, 2, 3); }
MC_SCENARIO(P18, mpsc_3x1, {.preempt = -1}) { mpsc(3, 1, 2); }
MC_SCENARIO(P18, mpsc_2x1_stale, {.preempt = 3, .stale = 2}, {.preempt = -1, .stale = 3}) { mpsc(2, 1, 2, false); }
// every interleaved sequence of single-threaded pushes and pops against a reference queue
MC_SCENARIO(P18, mpsc_histories, {.preempt = -1})
{
  using q_t = __intrusive_mpsc_queue<&anode::next>;
  q_t               q;
  anode             n[8];
  std::deque<int>   ref;
  std::deque<int>   idle;
  for (int i = 0; i < 4; ++i) n[i].id = i, idle.push_back(i);
  for (int step = 0; step < 9; ++step)
  {
    if (mc::choose(2))
    {
      if (idle.empty()) mc::discard();
      int i = idle.front();
      idle.pop_front();
      bool e = q.push_back(&n[i]);
      MC_CHECK(e == ref.empty());
      ref.push_back(i);
    }
    else
    {
      anode* x = q.pop_front();
      MC_CHECK((x == nullptr) == ref.empty());
      if (x)
      {
        MC_CHECK(x == &n[ref.front()]);
        ref.pop_front();
        idle.push_back(x->id);  // nodes are reused
      }
    }
  }
}

namespace
{
  // -------------------------------------------------------------------------------------------
  // run_loop's queue: push returns "was empty", pop_all returns everything in push order, wait_for_item
  // returns only when there is an item.
  void aq(int producers, int k, bool wait)
  {
    using q_t = STDEXEC::__atomic_intrusive_queue<&node::next>;
    auto* q = new q_t;
    std::vector<std::thread> ts;
    for (int p = 0; p < producers; ++p)
      ts.emplace_back([=] {
        for (int i = 0; i < k; ++i)
        {
          int   id = p * 4 + i;
          auto* n = new node;
          n->id = id;
          n->payload = 100 + id;
          began(id) = 1;
          bool e = q->push(n);
          mc::outcome("%d:%d", id, e);
          if (e) mc::ctr(60)++;
        }
      });
    int total = producers * k, n = 0, batches = 0;
    while (n < total)
    {
      if (wait) q->wait_for_item();
      else if (n < total && batches >= 2) { for (auto& t: ts) if (t.joinable()) t.join(); }
      auto l = q->pop_all();
      ++batches;
      if (wait) MC_CHECK(!l.empty());
      if (!l.empty()) mc::ctr(61)++;
      while (!l.empty())
      {
        node* x = l.pop_front();
        got(x->id, x->payload);
        delete x;
        ++n;
      }
    }
    for (auto& t: ts) if (t.joinable()) t.join();
    // the queue became non-empty as often as it was emptied
    MC_CHECK(mc::ctr(60) == mc::ctr(61));
    MC_CHECK(q->pop_all().empty());
    delete q;
  }
}  // namespace
MC_SCENARIO(P18, queue_2x2, {.preempt = -1}) { aq(2, 2, false); }
MC_SCENARIO(P18, queue_3x1, {.preempt = -1}) { aq(3, 1, false); }
MC_SCENARIO(P18, queue_wait_2x1, {.preempt = -1}) { aq(2, 1, true); }
MC_SCENARIO(P18, queue_wait_2x2, {.preempt = 4, .spurious = 1}, {.preempt = -1, .spurious = 1}) { aq(2, 2, true); }
MC_SCENARIO(P18, queue_stale, {.preempt = 3, .stale = 2, .spurious = 1}, {.preempt = 5, .stale = 3, .spurious = 2}) { aq(2, 1, false); }

namespace
{
  // -------------------------------------------------------------------------------------------
  // The pool's remote queue: push_front / try_push_front / prepend, popped in either direction.
  void remote(int producers, int k, int popper)
  {
    using q_t = experimental::execution::__atomic_intrusive_queue<&node::next>;
    auto* q = new q_t;
    std::vector<std::thread> ts;
    for (int p = 0; p < producers; ++p)
      ts.emplace_back([=] {
        unsigned kind = mc::choose(3, "kind");
        auto mk = [&](int i) {
          auto* n = new node;
          n->id = p * 4 + i;
          n->payload = 100 + n->id;
          began(n->id) = 1;
          return n;
        };
        if (kind == 0)
          for (int i = 0; i < k; ++i) mc::ctr(60) += q->push_front(mk(i));
        else if (kind == 1)
          for (int i = 0; i < k; ++i)
          {
            auto* n = mk(i);
            for (;;)
            {
              auto r = q->try_push_front(n);
              if (r.__success) { mc::ctr(60) += r.__was_empty; break; }
            }
          }
        else
        {
          // a chain, newest first, is put in front in one step
          STDEXEC::__intrusive_queue<&node::next> l;
          for (int i = 0; i < k; ++i) l.push_front(mk(i));
          q->prepend(std::move(l));
          mc::ctr(62) = 1;
        }
      });
    int n = 0, total = producers * k, rounds = 0;
    auto drain = [&] {
      bool was = q->empty();
      if (popper == 0)
      {
        auto l = q->pop_all_reversed();  // oldest first
        if (!l.empty()) mc::ctr(61)++;
        (void) was;
        while (!l.empty())
        {
          node* x = l.pop_front();
          got(x->id, x->payload);
          delete x;
          ++n;
        }
      }
      else
      {
        auto l = q->pop_all();  // newest first
        if (!l.empty()) mc::ctr(61)++;
        std::vector<node*> v;
        while (!l.empty()) v.push_back(l.pop_front());
        for (; !v.empty(); v.pop_back())
        {
          got(v.back()->id, v.back()->payload);
          delete v.back();
          ++n;
        }
      }
    };
    while (n < total)
    {
      if (rounds++ >= 2) for (auto& t: ts) if (t.joinable()) t.join();
      MC_CHECK(rounds < 5);
      drain();
    }
    for (auto& t: ts) if (t.joinable()) t.join();
    MC_CHECK(q->empty());
    if (!mc::ctr(62)) MC_CHECK(mc::ctr(60) == mc::ctr(61));
    delete q;
  }
}  // namespace
MC_SCENARIO(P18, remote_2x2, {.preempt = 4}, {.preempt = -1}) { remote(2, 2, 0); }
MC_SCENARIO(P18, remote_2x2_newest_first, {.preempt = 4}, {.preempt = -1}) { remote(2, 2, 1); }
MC_SCENARIO(P18, remote_3x1, {.preempt = 3}, {.preempt = -1}) { remote(3, 1, 0); }
MC_SCENARIO(P18, remote_stale, {.preempt = 3, .stale = 2, .spurious = 1}, {.preempt = 5, .stale = 3, .spurious = 1}) { remote(2, 1, 0); }

// ---------------------------------------------------------------------------------------------
// All single-threaded operation sequences on the intrusive FIFO list against std::deque, with two lists.
MC_SCENARIO(P18, list_histories, {.preempt = -1, .depth = 5}, {.preempt = -1, .depth = 6})
{
  using q_t = STDEXEC::__intrusive_queue<&node::next>;
  int const       depth = mc::depth();
  node            n[8];
  int             used = 0;
  q_t             q[2];
  std::deque<int> ref[2];
  for (int i = 0; i < depth; ++i) n[i].id = i;
  auto check = [&] {
    for (int w = 0; w < 2; ++w)
    {
      MC_CHECK(q[w].empty() == ref[w].empty());
      MC_CHECK((q[w].front() == nullptr) == ref[w].empty());
      if (!ref[w].empty())
      {
        MC_CHECK(q[w].front() == &n[ref[w].front()]);
        MC_CHECK(q[w].back() == &n[ref[w].back()]);
      }
      std::size_t i = 0;
      for (auto it = q[w].begin(); it != q[w].end(); ++it, ++i)
      {
        MC_CHECK(i < ref[w].size());
        MC_CHECK(*it == &n[ref[w][i]]);
      }
      MC_CHECK(i == ref[w].size());
    }
  };
  for (int step = 0; step < depth; ++step)
  {
    unsigned op = mc::choose(9, "op");
    unsigned w = op == 8 ? 0 : mc::choose(2, "which");
    switch (op)
    {
    case 0: n[used].next = &n[0]; q[w].push_back(&n[used]); ref[w].push_back(used++); break;
    case 1: n[used].next = &n[0]; q[w].push_front(&n[used]); ref[w].push_front(used++); break;
    case 2:
      if (ref[w].empty()) mc::discard();
      MC_CHECK(q[w].pop_front() == &n[ref[w].front()]);
      ref[w].pop_front();
      break;
    case 3:
      q[w].append(std::move(q[1 - w]));
      for (int i: ref[1 - w]) ref[w].push_back(i);
      ref[1 - w].clear();
      break;
    case 4:
      q[w].prepend(std::move(q[1 - w]));
      while (!ref[1 - w].empty()) ref[w].push_front(ref[1 - w].back()), ref[1 - w].pop_back();
      break;
    case 5:  // move assignment swaps contents in through a temporary; the target is emptied first
      if (!ref[w].empty()) mc::discard();
      q[w] = std::move(q[1 - w]);
      std::swap(ref[w], ref[1 - w]);
      break;
    case 6:
    {
      node* head = q[w].front();
      q[w].clear();
      q[w] = q_t::make_reversed(head);
      std::deque<int> r(ref[w].rbegin(), ref[w].rend());
      ref[w] = r;
      break;
    }
    case 7:
    {
      node* head = q[w].front();
      q[w].clear();
      q[w] = q_t::make(head);
      break;
    }
    case 8:  // the way the pool takes a prefix out of a list: into an empty list, which is then dropped
    {
      std::size_t k = mc::choose(3, "prefix");
      if (k > ref[0].size() || k == 0) mc::discard();
      auto it = q[0].begin();
      for (std::size_t i = 0; i < k; ++i) ++it;
      q_t tmp;
      tmp.splice(tmp.begin(), q[0], q[0].begin(), it);
      MC_CHECK(tmp.front() == &n[ref[0].front()]);
      MC_CHECK(tmp.back() == &n[ref[0][k - 1]]);
      tmp.clear();
      for (std::size_t i = 0; i < k; ++i) ref[0].pop_front();
      break;
    }
    }
    check();
  }
  q[0].clear();
  q[1].clear();
}
// All single-threaded operation sequences on the intrusive LIFO list against std::deque, with two lists.
MC_SCENARIO(P18, slist_histories, {.preempt = -1, .depth = 5}, {.preempt = -1, .depth = 7})
{
  using q_t = STDEXEC::__intrusive_slist<&node::next>;
  int const       depth = mc::depth();
  node            n[8];
  int             used = 0;
  q_t             q[2];
  std::deque<int> ref[2];
  for (int i = 0; i < depth; ++i) n[i].id = i;
  for (int step = 0; step < depth; ++step)
  {
    unsigned op = mc::choose(6, "op");
    unsigned w = mc::choose(2, "which");
    switch (op)
    {
    case 0:
    case 1: q[w].push_front(&n[used]); ref[w].push_front(used++); break;
    case 2:
      if (ref[w].empty()) mc::discard();
      MC_CHECK(q[w].pop_front() == &n[ref[w].front()]);
      ref[w].pop_front();
      break;
    case 3:
    {
      if (!used) mc::discard();
      int  i = int(mc::choose(unsigned(used), "node"));
      auto it = std::find(ref[w].begin(), ref[w].end(), i);
      // (a node of the other list is not a member either)
      node* r = q[w].remove(&n[i]);
      MC_CHECK((r == &n[i]) == (it != ref[w].end()));
      MC_CHECK(r == nullptr || r == &n[i]);
      if (it != ref[w].end()) ref[w].erase(it);
      break;
    }
    case 4: q[0].swap(q[1]); std::swap(ref[0], ref[1]); break;
    case 5:
      if (!ref[w].empty()) mc::discard();
      q[w] = std::move(q[1 - w]);
      std::swap(ref[w], ref[1 - w]);
      break;
    }
    for (int l = 0; l < 2; ++l)
    {
      MC_CHECK(q[l].empty() == ref[l].empty());
      std::size_t i = 0;
      for (node* x: q[l])
      {
        MC_CHECK(i < ref[l].size());
        MC_CHECK(x == &n[ref[l][i++]]);
      }
      MC_CHECK(i == ref[l].size());
    }
  }
}
