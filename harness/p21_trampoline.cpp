// P21: the trampoline scheduler bounds recursion and runs everything once
#include "common.hpp"
#include <exec/trampoline_scheduler.hpp>
#include <exec/repeat_n.hpp>

namespace
{
  struct node;
  struct world
  {
    exec::trampoline_scheduler sch{};
    ex::inplace_stop_source*   src = nullptr;
    int   budget = 0;      // nodes that may still be created
    int   nodes = 0, done = 0;
    int   depth = 0, maxdepth = 0;
    int   stop_at = -1;    // request stop when this many nodes completed
    bool  stopped = false;
    int   deferred[16];    // node ids in the order their start() returned without completing
    int   ndef = 0, nextdef = 0;
    bool  all_at_end = false;
    bool  chain = false;
    char* lo = nullptr;
    char* hi = nullptr;
  };

  template <class Env>
  struct R
  {
    using receiver_concept = ex::receiver_t;
    node* n;
    Env   env;
    void  set_value() noexcept;
    void  set_stopped() noexcept;
    Env   get_env() const noexcept { return env; }
  };
  using tok_env = h::stop_env;
  struct node
  {
    world* w;
    int    id;
    bool   completed = false, starting = false;
    int    tid;
    using op_t = ex::connect_result_t<decltype(std::declval<exec::trampoline_scheduler&>().schedule()), R<tok_env>>;
    op_t op;
    node(world* ww) : w(ww), id(ww->nodes++), tid(mc::self()), op(ex::connect(w->sch.schedule(), R<tok_env>{this, tok_env{w->src->get_token()}})) {}
    void start();
    void complete(bool stopped);
  };
  void start_node(world* w);
  void node::start() { ex::start(op); }
  void node::complete(bool stopped)
  {
    world* ww = w;
    char   here;
    if (!ww->lo || &here < ww->lo) ww->lo = &here;
    if (!ww->hi || &here > ww->hi) ww->hi = &here;
    if (completed) mc::fail("operation completed twice");
    completed = true;
    MC_CHECK(tid == mc::self());
    MC_CHECK(stopped == ww->stopped);
    bool inl = starting;
    if (!inl)
    {
      // a deferred operation: first in, first out
      MC_CHECK(ww->nextdef < ww->ndef && ww->deferred[ww->nextdef] == id);
      ++ww->nextdef;
    }
    ++ww->depth;
    ww->maxdepth = std::max(ww->maxdepth, ww->depth);
    if (ww->done == ww->stop_at) { ww->stopped = true; ww->src->request_stop(); }
    ++ww->done;
    if (!inl) delete this;
    int kids = 0;
    if (ww->chain) kids = ww->budget > 0;
    else if (ww->budget > 0) kids = mc::choose(std::min(ww->budget, 2) + 1, "children");
    ww->budget -= kids;
    for (int i = 0; i < kids; ++i) start_node(ww);
    --ww->depth;
  }
  void start_node(world* w)
  {
    auto* n = new node(w);
    n->starting = true;
    int id = n->id;
    n->start();
    if (n->completed) delete n;
    else
    {
      n->starting = false;
      w->deferred[w->ndef++ % 16] = id;
    }
  }
  template <> void R<tok_env>::set_value() noexcept { n->complete(false); }
  template <> void R<tok_env>::set_stopped() noexcept { n->complete(true); }
}  // namespace

// `starting` is read after start() returns: nodes completed inline are destroyed by start_node.
MC_SCENARIO(P21, trees, {.preempt = -1}, {.preempt = -1})
{
  ex::inplace_stop_source src;
  world w;
  w.src = &src;
  int depth = 1 + mc::choose(3, "depth");
  w.sch = exec::trampoline_scheduler(depth);
  w.budget = 5;
  w.stop_at = int(mc::choose(4)) - 1;
  // root: whatever it starts must be over when its start returns
  start_node(&w);
  MC_CHECK(w.done == w.nodes && w.nextdef == w.ndef);
  MC_CHECK(w.maxdepth <= depth + 0);
  mc::outcome("n%d d%d m%d", w.nodes, w.ndef, w.maxdepth);
}
// explicit stack budgets
MC_SCENARIO(P21, trees_size, {.preempt = -1}, {.preempt = -1})
{
  ex::inplace_stop_source src;
  world w;
  w.src = &src;
  int k = mc::choose(3);
  w.sch = exec::trampoline_scheduler(2 + mc::choose(2), k == 0 ? 0 : k == 1 ? 600 : 1 << 20);
  w.budget = 5;
  start_node(&w);
  MC_CHECK(w.done == w.nodes && w.nextdef == w.ndef);
  MC_CHECK(w.maxdepth <= 3);
  if (k == 0) MC_CHECK(w.maxdepth == 1);
}
namespace
{
  long extent(exec::trampoline_scheduler s, int len)
  {
    ex::inplace_stop_source src;
    world w;
    w.src = &src;
    w.sch = s;
    w.budget = len;
    w.chain = true;
    for (int i = 0; i < 16; ++i) w.deferred[i] = -1;
    // chains defer one node at a time
    struct fix { static void run(world& w) { start_node(&w); } };
    fix::run(w);
    MC_CHECK(w.done == len + 1);
    return w.hi - w.lo;
  }
}  // namespace
// the stack used by a chain of nested schedules does not grow with its length
MC_SCENARIO(P21, stack_bound, {.preempt = -1})
{
  switch (mc::choose(3))
  {
  case 0: { long a = extent(exec::trampoline_scheduler(), 15); MC_CHECK(a < 16384); break; }
  case 1: { long a = extent(exec::trampoline_scheduler(1000, 2000), 15); MC_CHECK(a < 2000 + 2048); break; }
  default: { long a = extent(exec::trampoline_scheduler(4, 1 << 20), 15); MC_CHECK(a < 8192); }
  }
}
// a long inline loop on the trampoline keeps the stack flat and stays on its thread
MC_SCENARIO(P21, long_loop, {.preempt = -1})
{
  auto run = [](int n, long& ext) {
    char *lo = nullptr, *hi = nullptr;
    int   cnt = 0, me = mc::self();
    h::rec r;
    h::go(exec::repeat_n(ex::just() | ex::then([&] {
            char here;
            if (!lo || &here < lo) lo = &here;
            if (!hi || &here > hi) hi = &here;
            ++cnt;
            MC_CHECK(mc::self() == me);
          }), n), r);
    MC_CHECK(r.is(h::VAL) && cnt == n);
    ext = hi - lo;
  };
  long a, b;
  run(200, a);
  run(1500, b);
  MC_CHECK(a == b && b < 65536);
}
// independent threads have independent trampolines
MC_SCENARIO(P21, two_threads, {.preempt = -1})
{
  ex::inplace_stop_source src;
  int tot[2] = {};
  auto body = [&](int i) {
    world w;
    w.src = &src;
    w.sch = exec::trampoline_scheduler(2);
    w.budget = 2;
    w.chain = true;
    start_node(&w);
    MC_CHECK(w.done == w.nodes);
    tot[i] = w.done;
  };
  std::thread t([&] { body(1); });
  body(0);
  t.join();
  MC_CHECK(tot[0] == 3 && tot[1] == 3);
}
