// Public interface of the stateless model checker (see DESIGN.md).
#pragma once
#include <cstddef>
#include <cstdint>

namespace mc
{
  struct options
  {
    int      preempt     = 2;     // preemption bound; -1 = unbounded (full DPOR + sleep sets)
    int      stale       = 0;     // how many loads per execution may return an older visible store
    int      spurious    = 0;     // how many weak-CAS / condvar spurious failures per execution
    int      early_timer = 0;     // how many timed waits may fire while other threads can run
    bool     dpor        = true;  // partial-order reduction (bounded DPOR); false = plain enumeration
    bool     leaks       = true;  // unfreed memory at the end of an execution is a violation
    bool     iterate     = true;  // iterate the preemption bound 0,1,..,preempt
    unsigned horizon     = 20000; // visible operations per execution
    unsigned long max_exec = 0;   // 0 = no cap
    int      depth       = 0;     // handed to the scenario through mc::depth(): length of histories etc.
  };

  using body_t = void (*)();
  struct scenario
  {
    char const * property;
    char const * name;
    body_t       body;
    options      quick;
    options      thorough;
    bool         has_thorough;
  };
  struct registrar
  {
    registrar(char const * property, char const * name, body_t, options quick);
    registrar(char const * property, char const * name, body_t, options quick, options thorough);
  };

  // Exhaustively explored data choice in [0, n).
  unsigned choose(unsigned n, char const * what = "") noexcept;
  // Report a violation of the property (does not return inside an execution).
  [[noreturn]] void fail(char const * fmt, ...) noexcept __attribute__((format(printf, 1, 2)));
  // Part of the observable outcome of this execution (distinct outcomes are counted).
  void outcome(char const * fmt, ...) noexcept __attribute__((format(printf, 1, 2)));
  // Annotation shown in traces only.
  void note(char const * fmt, ...) noexcept __attribute__((format(printf, 1, 2)));
  // An execution that turns out to be outside the stated bounds/preconditions is dropped
  // (counted separately).
  [[noreturn]] void discard() noexcept;

  // Uninstrumented shared log: appends v, returns index.  Not a scheduling point.
  int      log(long v) noexcept;
  int      log_size() noexcept;
  long     log_at(int i) noexcept;
  // Uninstrumented shared counters (64 of them), zeroed at the start of every execution.
  long&    ctr(int i) noexcept;
  // Current fiber id (0 = the scenario body itself).
  int      self() noexcept;
  // bytes/allocations alive in the controlled heap
  long     live_allocs() noexcept;
  long     total_allocs() noexcept;
  // true if p points into controlled heap memory that has been freed
  bool     is_dead(void const * p) noexcept;
  // Allocation failure injection: the k-th allocation from now on throws bad_alloc (k>=1; 0 = off)
  long     fail_alloc(long k) noexcept;
  // The depth option of the running tier
  int      depth() noexcept;
  // Block until every other thread of the execution has finished (and see their writes)
  void     join_all() noexcept;
  // An explicit scheduling point (write access to obj)
  void     point(void const * obj) noexcept;
  // Virtual clock in ns
  long     now() noexcept;
  // how many virtual CPUs hardware_concurrency() reports
  void     set_ncpu(int) noexcept;
  // let the execution end even though other threads are still blocked (daemon threads)
  void     allow_daemons() noexcept;
  // ignore leaks in this execution
  void     ignore_leaks() noexcept;
  // inside: memory is not checked
  bool     exploring() noexcept;
}  // namespace mc

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b)  MC_CAT2(a, b)
// MC_SCENARIO(P01, name, quick options, [thorough options]) { body }
#define MC_SCENARIO(PROP, NAME, ...)                                                              \
  static void           NAME();                                                                   \
  static mc::registrar MC_CAT(mc_reg_, NAME){#PROP, #NAME, &NAME, __VA_ARGS__};                   \
  static void           NAME()
#define MC_CHECK(cond, ...)                                                                       \
  do                                                                                              \
  {                                                                                               \
    if (!(cond))                                                                                  \
      ::mc::fail("check failed: " #cond " at " __FILE__ ":%d", __LINE__);                         \
  } while (0)
