// Engine self-tests: outcomes of litmus tests and detection of seeded concurrency bugs.
#include "mc.h"
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <memory>
#include <vector>
#include <chrono>

#define FULL {.preempt = -1}
#define PLAIN {.preempt = -1, .dpor = false}

// --- store buffering: SC interleavings must give 3 outcomes; with stale=1 relaxed gives 4
template <class F1, class F2> static void two(F1 f1, F2 f2) { std::thread a(f1); std::thread b(f2); a.join(); b.join(); }

static void sb(std::memory_order mo) {
  std::atomic<int> x{0}, y{0}; int r1 = 0, r2 = 0;
  two([&]{ x.store(1, mo); r1 = y.load(mo); }, [&]{ y.store(1, mo); r2 = x.load(mo); });
  mc::outcome("%d%d", r1, r2);
}
MC_SCENARIO(SELF, sb_full, {.preempt = -1}) { sb(std::memory_order_seq_cst); }
MC_SCENARIO(SELF, sb_plain, {.preempt = -1, .dpor = false}) { sb(std::memory_order_seq_cst); }
MC_SCENARIO(SELF, sb_b2, {.preempt = 2}) { sb(std::memory_order_seq_cst); }
MC_SCENARIO(SELF, sb_sc_stale, {.preempt = -1, .stale = 2}) { sb(std::memory_order_seq_cst); }
MC_SCENARIO(SELF, sb_rlx_stale, {.preempt = -1, .stale = 2}) { sb(std::memory_order_relaxed); }
// --- message passing
static void mp(std::memory_order ws, std::memory_order rs) {
  std::atomic<int> flag{0}; int data = 0; 
  two([&]{ data = 1; flag.store(1, ws); }, [&]{ if (flag.load(rs)) { mc::outcome("saw%d", data);} else mc::outcome("no"); });
}
MC_SCENARIO(SELF, mp_ok, {.preempt = -1}) { mp(std::memory_order_release, std::memory_order_acquire); }
MC_SCENARIO(SELF, bad_mp_rlx, {.preempt = -1}) { mp(std::memory_order_relaxed, std::memory_order_acquire); }
MC_SCENARIO(SELF, bad_mp_rlx2, {.preempt = 1}) { mp(std::memory_order_release, std::memory_order_relaxed); }
// --- 3 threads counter, fetch_add
MC_SCENARIO(SELF, inc3_full, {.preempt = -1}) {
  std::atomic<int> x{0}; std::vector<std::thread> t; int r[3];
  for (int i = 0; i < 3; ++i) t.emplace_back([&, i]{ r[i] = x.fetch_add(1); });
  for (auto& q : t) q.join();
  mc::outcome("%d%d%d", r[0], r[1], r[2]);
}
MC_SCENARIO(SELF, inc3_plain, {.preempt = -1, .dpor = false}) {
  std::atomic<int> x{0}; std::vector<std::thread> t; int r[3];
  for (int i = 0; i < 3; ++i) t.emplace_back([&, i]{ r[i] = x.fetch_add(1); });
  for (auto& q : t) q.join();
  mc::outcome("%d%d%d", r[0], r[1], r[2]);
}
MC_SCENARIO(SELF, inc3_b3, {.preempt = 3}) {
  std::atomic<int> x{0}; std::vector<std::thread> t; int r[3];
  for (int i = 0; i < 3; ++i) t.emplace_back([&, i]{ r[i] = x.fetch_add(1); });
  for (auto& q : t) q.join();
  mc::outcome("%d%d%d", r[0], r[1], r[2]);
}
// --- lost update with load/store: outcome 1 or 2 ; races no
static void lost() { std::atomic<int> x{0}; auto f = [&]{ int v = x.load(); x.store(v + 1); }; two(f, f); mc::outcome("%d", x.load()); }
MC_SCENARIO(SELF, lost_full, {.preempt = -1}) { lost(); }
MC_SCENARIO(SELF, lost_plain, {.preempt = -1, .dpor = false}) { lost(); }
MC_SCENARIO(SELF, lost_b1, {.preempt = 1}) { lost(); }
MC_SCENARIO(SELF, lost_b0, {.preempt = 0}) { lost(); }
// mixed DPOR vs plain: random-ish program
static void mix() {
  std::atomic<int> x{0}, y{0}, z{0}; int a = 0, b = 0, c = 0, d = 0;
  std::thread t1([&]{ x.store(1); a = y.exchange(1); z.fetch_add(2); });
  std::thread t2([&]{ y.store(2); b = x.load(); c = z.load(); });
  x.store(3); d = z.fetch_add(5);
  t1.join(); t2.join();
  mc::outcome("%d%d%d%d x%d y%d", a, b, c, d, x.load(), y.load());
}
MC_SCENARIO(SELF, mix_full, {.preempt = -1}) { mix(); }
MC_SCENARIO(SELF, mix_plain, {.preempt = -1, .dpor = false}) { mix(); }
MC_SCENARIO(SELF, mix_b4, {.preempt = 4}) { mix(); }
MC_SCENARIO(SELF, mix_plain_b1, {.preempt = 1, .dpor=false}) { mix(); }
MC_SCENARIO(SELF, mix_b1, {.preempt = 1}) { mix(); }
MC_SCENARIO(SELF, mix_plain_b2, {.preempt = 2, .dpor=false}) { mix(); }
MC_SCENARIO(SELF, mix_b2, {.preempt = 2}) { mix(); }
// --- mutex
static void mtx() { std::mutex m; int x = 0; std::string s; auto f = [&](char c){ return [&, c]{ std::lock_guard g(m); x++; s.push_back(c);} ; }; two(f('a'), f('b')); mc::outcome("%d%s", x, s.c_str()); }
MC_SCENARIO(SELF, mutex_full, {.preempt = -1}) { mtx(); }
MC_SCENARIO(SELF, mutex_plain, {.preempt = -1, .dpor = false}) { mtx(); }
MC_SCENARIO(SELF, bad_race, {.preempt = 0}) { int x = 0; auto f = [&]{ x++; }; two(f, f); }
MC_SCENARIO(SELF, bad_deadlock, {.preempt = 1}) {
  std::mutex a, b; two([&]{ std::lock_guard g(a); std::lock_guard h(b); }, [&]{ std::lock_guard g(b); std::lock_guard h(a); });
}
MC_SCENARIO(SELF, ok_deadlock_b0, {.preempt = 0}) {
  std::mutex a, b; two([&]{ std::lock_guard g(a); std::lock_guard h(b); }, [&]{ std::lock_guard g(b); std::lock_guard h(a); });
}
// lost wakeup: flag set without the lock
MC_SCENARIO(SELF, bad_lostwake, {.preempt = 1}) {
  std::mutex m; std::condition_variable cv; std::atomic<bool> f{false};
  two([&]{ std::unique_lock g(m); while (!f.load()) cv.wait(g); }, [&]{ f.store(true); cv.notify_one(); });
}
MC_SCENARIO(SELF, cv_ok, {.preempt = -1, .spurious = 1}) {
  std::mutex m; std::condition_variable cv; bool f = false;
  two([&]{ std::unique_lock g(m); while (!f) cv.wait(g); }, [&]{ { std::lock_guard g(m); f = true; } cv.notify_one(); });
}
MC_SCENARIO(SELF, bad_spurious, {.preempt = 1, .spurious = 1}) {
  std::mutex m; std::condition_variable cv; bool f = false;
  two([&]{ std::unique_lock g(m); if (!f) cv.wait(g); MC_CHECK(f); }, [&]{ { std::lock_guard g(m); f = true; } cv.notify_one(); });
}
MC_SCENARIO(SELF, await_ok, {.preempt = -1}) {
  std::atomic<int> x{0};
  two([&]{ x.wait(0); mc::outcome("%d", x.load()); }, [&]{ x.store(1); x.notify_one(); });
}
MC_SCENARIO(SELF, bad_await_nonotify, {.preempt = 1}) {
  std::atomic<int> x{0};
  two([&]{ x.wait(0); }, [&]{ x.store(1); });
}
MC_SCENARIO(SELF, spin_ok, {.preempt = -1}) {
  std::atomic<int> x{0};
  two([&]{ while (!x.load()) ; }, [&]{ x.store(1); });
}
MC_SCENARIO(SELF, spin_yield_ok, {.preempt = 2}) {
  std::atomic<int> x{0};
  two([&]{ while (!x.load()) std::this_thread::yield(); }, [&]{ x.store(1); });
}
MC_SCENARIO(SELF, bad_spin, {.preempt = 1}) {
  std::atomic<int> x{0};
  two([&]{ while (!x.load()) ; }, [&]{ x.store(0); });
}
MC_SCENARIO(SELF, spinlock_full, {.preempt = -1}) {
  std::atomic<bool> l{false}; int n = 0;
  auto f = [&]{ while (l.exchange(true, std::memory_order_acquire)) std::this_thread::yield(); n++; l.store(false, std::memory_order_release); };
  two(f, f); mc::outcome("%d", n);
}
MC_SCENARIO(SELF, bad_uaf, {.preempt = 1}) {
  auto* p = new std::atomic<int>{0};
  two([&]{ p->store(1); }, [&]{ if (p->load()) delete p; else { } });
  if (p->load() == 0) delete p;
}
MC_SCENARIO(SELF, bad_leak, {.preempt = 0}) { int* volatile p = new int(3); (void) p; }
MC_SCENARIO(SELF, bad_double, {.preempt = 0}) { int* p = new int(3); int * volatile q = p; delete p; delete q; }
MC_SCENARIO(SELF, bad_oob, {.preempt = 0}) { int* p = new int[2]; int volatile * volatile q = p; q[2] = 1; delete [] p; }
MC_SCENARIO(SELF, bad_deadstack, {.preempt = 0}) {
  std::atomic<int*> p{nullptr}; std::atomic<int> done{0};
  std::thread t([&]{ auto f = [&]{ int x = 5; int volatile * q = &x; *q = 6; p.store((int*) q); }; f(); while(!done.load()); int z[100]; (void) z; });
  while (!p.load()) ; 
  done.store(1);
  t.join(); int v = *(int volatile*) p.load(); mc::outcome("%d", v);
}
MC_SCENARIO(SELF, bad_terminate, {.preempt = 0}) { std::thread t([]{ throw 1; }); t.join(); }
MC_SCENARIO(SELF, exc_ok, {.preempt = 1}) {
  auto f = []{ try { throw std::string("a long string that is on the heap, allocated"); } catch (std::string& s) { std::this_thread::yield(); try { throw 3; } catch (int) {} } };
  two(f, f);
}
MC_SCENARIO(SELF, excptr_ok, {.preempt = 1}) {
  std::exception_ptr e; std::atomic<int> x{0};
  two([&]{ try { throw 5; } catch (...) { e = std::current_exception(); } x.store(1); }, [&]{ while (!x.load()); try { std::rethrow_exception(e); } catch (int i) { mc::outcome("%d", i);} });
}
MC_SCENARIO(SELF, sharedptr_full, {.preempt = -1}) {
  auto p = std::make_shared<int>(4);
  two([q = p]() mutable { q.reset(); }, [q = p]() mutable { q.reset(); });
  p.reset();
}
MC_SCENARIO(SELF, timed, {.preempt = 1, .early_timer = 1}) {
  std::mutex m; std::condition_variable cv; bool f = false; int r = 0;
  two([&]{ std::unique_lock g(m); r = cv.wait_for(g, std::chrono::seconds(1), [&]{ return f; }); }, [&]{ { std::lock_guard g(m); f = true; } cv.notify_one(); });
  mc::outcome("%d", r);
}
MC_SCENARIO(SELF, choose, {.preempt = 0}) { unsigned a = mc::choose(3), b = mc::choose(a + 1); mc::outcome("%u%u", a, b); }
static thread_local int tl = 0;
static int gl = 0;
MC_SCENARIO(SELF, tls_glob, {.preempt = -1}) { gl++; tl++; two([]{ tl += 10; std::this_thread::yield(); mc::outcome("%d", tl); }, []{ tl += 10; }); mc::outcome("g%d", gl + tl); }
static std::atomic<int>& magic() { static std::atomic<int> x{[]{ std::this_thread::yield(); return 4;}()}; return x; }
MC_SCENARIO(SELF, magic_full, {.preempt = -1}) { two([]{ magic().fetch_add(1); }, []{ magic().fetch_add(1); }); mc::outcome("%d", magic().load()); }
// peterson with seq_cst ok; with relaxed & stale: race
static void peterson(std::memory_order mo) {
  std::atomic<int> fl[2] = {0, 0}, turn{0}; int n = 0;
  auto p = [&](int i){ return [&, i]{ fl[i].store(1, mo); turn.store(1 - i, mo); while (fl[1 - i].load(mo) && turn.load(mo) == 1 - i) std::this_thread::yield(); n++; fl[i].store(0, std::memory_order_release); }; };
  two(p(0), p(1)); mc::outcome("%d", n);
}
MC_SCENARIO(SELF, peterson_sc, {.preempt = 3, .stale = 1}) { peterson(std::memory_order_seq_cst); }
MC_SCENARIO(SELF, bad_peterson_rlx, {.preempt = 2, .stale = 1}) { peterson(std::memory_order_relaxed); }
