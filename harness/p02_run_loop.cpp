// P02: run_loop
#include "common.hpp"
using h::rec;

namespace
{
  auto sched_of(ex::run_loop& l) { return l.get_scheduler(); }
  template <class F> void post(ex::run_loop& l, rec& r, F f) { h::go(ex::then(ex::schedule(l.get_scheduler()), f), r); }
  void post(ex::run_loop& l, rec& r) { h::go(ex::schedule(l.get_scheduler()), r); }
}  // namespace

// The loop is destroyed the moment run() returns, while finish() may still be returning on the other thread.
MC_SCENARIO(P02, producer_finishes, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  auto* l = new ex::run_loop;
  rec r;
  std::thread a([&, l] { post(*l, r); l->finish(); });
  l->run();
  MC_CHECK(r.is(h::VAL) && r.tid == 0);
  delete l;
  a.join();
}

// two producers; the last one to have started its work finishes the loop
MC_SCENARIO(P02, two_producers, {.preempt = 3, .spurious = 1}, {.preempt = 5, .stale = 1, .spurious = 1})
{
  auto* l = new ex::run_loop;
  rec r[2];
  std::atomic<int> left{2};
  auto prod = [&, l](int i) { post(*l, r[i]); if (left.fetch_sub(1) == 1) l->finish(); };
  std::thread a([&] { prod(0); });
  std::thread b([&] { prod(1); });
  l->run();
  MC_CHECK(r[0].is(h::VAL) && r[1].is(h::VAL) && r[0].tid == 0 && r[1].tid == 0);
  delete l;
  a.join(); b.join();
}

// operations of one producer execute in the order they were started
MC_SCENARIO(P02, fifo, {.preempt = 3}, {.preempt = 5})
{
  auto* l = new ex::run_loop;
  rec r[4];
  int order[4], n = 0;
  std::atomic<int> left{2};
  std::thread a([&, l] {
    post(*l, r[0], [&] { order[n++] = 0; });
    post(*l, r[1], [&] { order[n++] = 1; });
    post(*l, r[2], [&] { order[n++] = 2; });
    if (left.fetch_sub(1) == 1) l->finish();
  });
  std::thread b([&, l] { post(*l, r[3], [&] { order[n++] = 3; }); if (left.fetch_sub(1) == 1) l->finish(); });
  l->run();
  MC_CHECK(n == 4);
  int pos[4];
  for (int i = 0; i < 4; ++i) pos[order[i]] = i;
  MC_CHECK(pos[0] < pos[1] && pos[1] < pos[2]);
  mc::outcome("%d", pos[3]);
  delete l;
  a.join(); b.join();
}

// stop request racing with execution
MC_SCENARIO(P02, stop_race, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  ex::inplace_stop_source s;
  auto* l = new ex::run_loop;
  rec r;
  bool before = false;
  std::thread a([&] { s.request_stop(); });
  std::thread b([&, l] {
    before = s.stop_requested();
    h::go(ex::schedule(l->get_scheduler()), r, h::stop_env{s.get_token()});
    l->finish();
  });
  l->run();
  bool after = s.stop_requested();
  MC_CHECK(r.n == 1 && (r.ch == h::VAL || r.ch == h::STOP));
  if (before) MC_CHECK(r.ch == h::STOP);
  if (!after) MC_CHECK(r.ch == h::VAL);
  mc::outcome("%d", r.ch);
  delete l;
  a.join(); b.join();
}

// work started by a loop task, also after finish() was requested
MC_SCENARIO(P02, nested_after_finish, {.preempt = -1}, {.preempt = -1, .stale = 1})
{
  auto* l = new ex::run_loop;
  rec r[3];
  int depth = 0;
  std::thread a([&, l] {
    post(*l, r[0], [&, l] {
      ++depth;
      post(*l, r[1], [&, l] { ++depth; post(*l, r[2], [&] { ++depth; }); });
    });
    l->finish();
  });
  l->run();
  MC_CHECK(depth == 3 && r[0].is(h::VAL) && r[1].is(h::VAL) && r[2].is(h::VAL));
  delete l;
  a.join();
}

// finish called by a task of the loop while another producer is still starting work
MC_SCENARIO(P02, finish_inside, {.preempt = 4}, {.preempt = 6})
{
  auto* l = new ex::run_loop;
  rec r[2];
  std::thread a([&, l] { post(*l, r[0]); post(*l, r[1], [l] { l->finish(); }); });
  l->run();
  MC_CHECK(r[0].is(h::VAL) && r[1].is(h::VAL));
  a.join();
  delete l;
}

// several finish requests
MC_SCENARIO(P02, two_finishers, {.preempt = 4}, {.preempt = -1})
{
  auto* l = new ex::run_loop;
  rec r;
  post(*l, r);
  std::thread a([&, l] { l->finish(); });
  std::thread b([&, l] { l->finish(); });
  l->run();
  MC_CHECK(r.is(h::VAL));
  a.join(); b.join();
  delete l;
}

// an external producer keeps the loop busy: two rounds through the sleeping state
MC_SCENARIO(P02, sleep_wake_rounds, {.preempt = 3, .spurious = 1}, {.preempt = -1, .spurious = 1})
{
  auto* l = new ex::run_loop;
  rec r[3];
  std::thread a([&, l] { for (int i = 0; i < 3; ++i) post(*l, r[i]); l->finish(); });
  l->run();
  for (auto& x : r) MC_CHECK(x.is(h::VAL) && x.tid == 0);
  delete l;
  a.join();
}

// everything a producer wrote before starting is visible to the task; everything the task wrote is visible
// after run() returned
MC_SCENARIO(P02, visibility, {.preempt = 3, .stale = 1}, {.preempt = -1, .stale = 1})
{
  auto* l = new ex::run_loop;
  rec r[2];
  int data[2] = {0, 0}, out = 0;
  std::atomic<int> left{2};
  auto prod = [&, l](int i) {
    data[i] = 7 + i;
    post(*l, r[i], [&, i] { out += data[i]; });
    if (left.fetch_sub(1) == 1) l->finish();
  };
  std::thread a([&] { prod(0); });
  std::thread b([&] { prod(1); });
  l->run();
  MC_CHECK(out == 15);
  a.join(); b.join();
  delete l;
}

// sequential programs: a tree of tasks posted before run, each of which may post further tasks or finish
namespace
{
  struct prog
  {
    ex::run_loop l;
    int budget = 4, posted = 0, ran = 0, last = -1;
    bool finished = false;
    rec  r[8];
    void add()
    {
      int id = posted++;
      --budget;
      post(l, r[id], [this, id] {
        MC_CHECK(id == last + 1);  // FIFO
        last = id;
        ++ran;
        act();
      });
    }
    void act()
    {
      unsigned k = mc::choose(4);
      if (k & 1) if (budget > 0) add();
      if (k & 2) if (budget > 0) add();
      if (!finished && mc::choose(2)) { finished = true; l.finish(); if (budget > 0 && mc::choose(2)) add(); }
    }
  };
}
MC_SCENARIO(P02, programs, {.preempt = 0})
{
  auto* p = new prog;
  p->act();
  if (!p->finished)
  {
    // somebody has to finish: the last task does
    p->finished = true;
    p->l.finish();
  }
  p->l.run();
  MC_CHECK(p->ran == p->posted);
  for (int i = 0; i < p->posted; ++i) MC_CHECK(p->r[i].is(h::VAL));
  mc::outcome("%d", p->ran);
  delete p;
}

// schedulers of the same loop compare equal, of different loops do not
MC_SCENARIO(P02, scheduler_identity, {.preempt = 0})
{
  ex::run_loop a, b;
  MC_CHECK(a.get_scheduler() == a.get_scheduler());
  MC_CHECK(!(a.get_scheduler() == b.get_scheduler()));
  MC_CHECK(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(ex::schedule(a.get_scheduler()))) == a.get_scheduler());
}
// The operations are started by two threads and the loop is finished by a third one, which learns from the operations'
// completions (not from the producers' start() calls returning) that both have been enqueued.
MC_SCENARIO(P02, finish_from_outside, {.preempt = 2}, {.preempt = 4})
{
  auto* l = new ex::run_loop;
  rec r[2];
  int n = 0;
  std::atomic<bool> ran{false};
  auto one = [&, l](int i) { post(*l, r[i], [&] { if (++n == 2) { ran.store(true); ran.notify_all(); } }); };
  std::thread a([&] { one(0); });
  std::thread b([&] { one(1); });
  std::thread f([&, l] { ran.wait(false); l->finish(); });
  l->run();
  MC_CHECK(n == 2 && r[0].is(h::VAL) && r[1].is(h::VAL));
  a.join(); b.join();
  delete l;
  f.join();
}
