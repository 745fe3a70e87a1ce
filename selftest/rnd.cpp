// Random small programs (fixed by MC_PROG_SEED): reductions must yield the same outcome set as plain enumeration.
#include "mc.h"
#include <atomic>
#include <cstdlib>
#include <mutex>
#include <thread>
static unsigned seed0 = getenv("MC_PROG_SEED") ? atoi(getenv("MC_PROG_SEED")) : 1;
static unsigned rnd(unsigned& s) { s = s * 1664525u + 1013904223u; return s >> 10; }
static void body(bool stale_ok) {
  std::atomic<int> v[3] = {0, 0, 0}; std::mutex m; int pl = 0; int r[3][4] = {};
  unsigned s = seed0 * 7919; int op[3][4], var[3][4], mo[3][4];
  int nt = 2 + rnd(s) % 2, nops = nt == 2 ? 3 : 2;
  for (int t = 0; t < nt; ++t) for (int i = 0; i < nops; ++i) { op[t][i] = rnd(s) % 7; var[t][i] = rnd(s) % 2; mo[t][i] = rnd(s) % 3; }
  auto run = [&](int t) {
    for (int i = 0; i < nops; ++i) {
      auto& a = v[var[t][i]];
      auto ml = mo[t][i] == 0 ? std::memory_order_relaxed : mo[t][i] == 1 ? std::memory_order_acquire : std::memory_order_seq_cst;
      auto ms = mo[t][i] == 0 ? std::memory_order_relaxed : mo[t][i] == 1 ? std::memory_order_release : std::memory_order_seq_cst;
      switch (op[t][i]) {
      case 0: case 1: a.store(10 * (t + 1) + i, ms); break;
      case 2: case 3: r[t][i] = a.load(ml); break;
      case 4: r[t][i] = a.fetch_add(1, std::memory_order_relaxed); break;
      case 5: { int e = 0; a.compare_exchange_strong(e, 100 + t); r[t][i] = e; break; }
      case 6: { std::lock_guard g(m); r[t][i] = ++pl; break; }
      }
    }
  };
  { std::thread a([&]{ run(0); }), b([&]{ run(1); });
    if (nt == 3) run(2);
    a.join(); b.join(); }
  char buf[200]; int n = 0;
  for (int t = 0; t < nt; ++t) for (int i = 0; i < nops; ++i) n += snprintf(buf + n, sizeof buf - n, "%d,", r[t][i]);
  mc::outcome("%s|%d %d", buf, v[0].load(), v[1].load());
}
MC_SCENARIO(SELF, full, {.preempt = -1}) { body(false); }
MC_SCENARIO(SELF, plain, {.preempt = -1, .dpor = false}) { body(false); }
MC_SCENARIO(SELF, b9, {.preempt = 9}) { body(false); }
MC_SCENARIO(SELF, b1, {.preempt = 1}) { body(false); }
MC_SCENARIO(SELF, pb1, {.preempt = 1, .dpor = false}) { body(false); }
MC_SCENARIO(SELF, b2, {.preempt = 2}) { body(false); }
MC_SCENARIO(SELF, pb2, {.preempt = 2, .dpor = false}) { body(false); }
MC_SCENARIO(SELF, full_s, {.preempt = -1, .stale = 1}) { body(true); }
MC_SCENARIO(SELF, plain_s, {.preempt = -1, .stale = 1, .dpor = false}) { body(true); }
