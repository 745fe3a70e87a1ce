// Stateless model checker for C++ code instrumented with -fsanitize=thread.
//
// The harness and the library under test are compiled with -fsanitize=thread but linked against this
// file instead of libtsan: every atomic operation, every plain memory access and (by symbol
// interposition) every pthread / malloc / clock call lands here.  Threads are fibers on one OS thread;
// the explorer decides at every visible operation which fiber runs next.
//
//  * exploration: depth-first over schedules, preemption bounded, with bounded partial-order reduction
//    (Coons/Musuvathi/McKinley, OOPSLA'13) or, unbounded, Flanagan/Godefroid DPOR with sleep sets.
//  * data choices (harness alphabet, stale loads, spurious failures, early timers) are enumerated too.
//  * monitors: byte-precise happens-before race detection that honours memory orders (FastTrack),
//    use-after-free / out-of-bounds / dead-stack accesses, double free, leaks, deadlock, livelock,
//    std::terminate, failed assertions, harness checks.
//  * every execution starts from the same snapshot of .data/.bss/TLS and an empty heap arena.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mc.h"
#include <random>

#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <link.h>
#include <map>
#include <new>
#include <pthread.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <cxxabi.h>

typedef uint8_t  u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;

// std::random_device is deterministic: a counter that restarts with every execution (MC_RND)
static unsigned mc_rnd;
void std::random_device::_M_init(std::string const &) {}
void std::random_device::_M_fini() {}
std::random_device::result_type std::random_device::_M_getval() { return ++mc_rnd; }

extern "C" {
void* __libc_malloc(size_t);
void  __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
extern char __data_start, _edata, __bss_start, _end;
}

// ------------------------------------------------------------------------------------------------
// constants
static constexpr int    MAXT       = 12;
static constexpr size_t HEAP_PER_T = 24u << 20;
static constexpr size_t HEAP_SIZE  = HEAP_PER_T * MAXT;
static constexpr size_t STACK_SIZE = 512u << 10;
static char* const      HEAP_BASE  = (char*) 0x100000000000ull;
static char* const      STACK_BASE = (char*) 0x110000000000ull;
static constexpr u32    CLK_MASK   = (1u << 26) - 1;
static constexpr u32    TID_SHIFT  = 26;  // 4 bits tid
static constexpr u32    F_ATOMIC   = 1u << 31;  // an AtomicLoc (or mutex) lives in this byte
static constexpr u32    F_SHARED   = 1u << 30;  // R is an index into shared read vectors
static constexpr u32    W_DEAD     = 0xFFFFFFFFu;
static constexpr u32    W_NOTRACK  = 0x7FFFFFFFu;

// memcpy/memset are interposed (instrumented accesses); the engine itself uses these
static inline void raw_copy(void* d, void const * s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
static inline void raw_set(void* d, int c, size_t n) { asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); }

struct VC
{
  u32  c[MAXT];
  void clear() { raw_set(c, 0, sizeof c); }
  void join(VC const & o)
  {
    for (int i = 0; i < MAXT; ++i)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

struct Cell
{
  u32 W;
  u32 R;
};

enum Kind : u8
{
  K_START, K_LOAD, K_STORE, K_RMW, K_CAS, K_FENCE, K_LOCK, K_TRYLOCK, K_UNLOCK, K_CWAIT, K_CWAKE,
  K_CSIGNAL, K_CREATE, K_JOIN, K_YIELD, K_AWAIT, K_AWOKEN, K_ANOTIFY, K_SLEEP, K_GUARD, K_ONCE, K_POINT, K_EXIT
};
static char const * const kind_name[] = {
  "start", "load", "store", "rmw", "cas", "fence", "lock", "trylock", "unlock", "cond_wait", "cond_wake",
  "cond_signal", "thread_create", "join", "yield", "atomic_wait", "atomic_woken", "atomic_notify", "sleep",
  "static_guard", "once", "point", "exit"};

struct Pending
{
  Kind  kind;
  bool  w1, w2;
  uintptr_t o1, o2;
  void* pc;
};

struct ObjInfo
{
  uintptr_t key = 0;
  int  lastW    = -1;          // step index
  int  lastR[MAXT];
  u64  version  = 0;           // bumped by every write step
  int  lastWtid = -1;
  u64  fp_w     = 0;           // fingerprint of last write
  u64  fp_r     = 0;
  u32  dvc[MAXT];              // join of dvcs of all accesses (for writes); see dvcW
  u32  dvcW[MAXT];
};

struct StoreRec
{
  u64  lo, hi;
  int  tid;     // -1 = initial
  u32  clk;
  bool sc;
  VC   rel;
  u32  seen[MAXT];  // clock at which thread t first read it (0 = never)
};

struct AtomicLoc
{
  uintptr_t addr;
  int       size;
  bool      dead;
  VC        accW, accR;
  u32       base;  // number of records dropped from the front
  std::vector<StoreRec> hist;
  u32       myMin[MAXT];  // absolute index: thread t may not read below it (own reads/writes)
};

struct MutexSt
{
  int owner = -1;
  int depth = 0;
  VC  vc;
};

struct CondSt
{
  std::vector<int> waiters;
};

struct GuardSt
{
  int state = 0;  // 0 none 1 running 2 done
  int owner = -1;
  VC  vc;
};

struct TlsDtor
{
  void (*fn)(void*);
  void* obj;
};

enum Block : u8 { B_NONE, B_COND, B_AWAIT, B_SPIN, B_SLEEP };

struct Fiber
{
  int      id;
  bool     used, finished, detached, joined;
  void*    sp;
  void*    ret;
  void* (*start)(void*);
  void*    arg;
  Pending  pend;
  Block    block;
  bool     signaled;
  bool     timedout;
  bool     yielding;
  long     deadline;  // -1: none
  uintptr_t waitaddr;
  int      joinTarget;
  VC       vc, vis;
  VC       acqF, relF;
  bool     hasRelF;
  u32      dvc[MAXT];   // dvc[t] = number of steps of t that happen-before
  u32      nsteps;
  u64      fp;
  char*    tls;
  char*    tls2;
  std::vector<TlsDtor>* dtors;
  // spin detection
  uintptr_t spinAddr;
  u64      spinVal;
  int      spinCnt;
  u32      spinRelease;   // # of times released without change
  bool     forceFresh;
  struct RS { uintptr_t a; u64 ver; };
  std::vector<RS>* readset;
  size_t   heapUsed;
  uintptr_t stackMin;
  int      guardDepth;
  int      xalloc;   // allocating exception memory
};

struct AllocRec
{
  char*  p;
  size_t n;
  bool   live;
  bool   immortal;
  bool   notrack;
  void*  pc;
  int    tid;
  int    freeTid;
  void*  freePc;
};

struct Node
{
  u8  type;  // 0 sched, 1 data
  u8  chosen;
  u8  cur;
  u8  dkind;  // data: 0 harness, 1 stale, 2 spurious, 3 signal pick
  bool curEnabled, curYield, doneInit;
  u16 enabled, backtrack, done, sleep, timers, spinb;
  u16 n;
  int preempts;   // before
  int stale, spur, early;
  int prevSched;
  int step;
  u64 sig;
};

struct Step
{
  u8    tid;
  Pending p;
  int   node;
  u32   local;
  u64   val;
  u32   dvc[MAXT];
};

struct Engine
{
  bool inExec, tracing;
  mc::options opt;
  int  bound;
  // fibers
  Fiber f[MAXT];
  int   nf;
  int   cur;
  void* hostSp;
  // memory
  Cell* heapSh;
  Cell* stackSh;
  Cell* dataSh;
  char* dataLo;
  char* dataHi;
  char* snapData;
  size_t snapDataN;
  char* snapBss;
  size_t snapBssN;
  char* tlsLo;
  size_t tlsN;
  char* tls2Lo;
  size_t tls2N;
  char* tlsImg;
  char* tls2Img;
  std::vector<VC>* shared;
  std::vector<AllocRec>* allocs;
  std::unordered_map<char*, int>* allocIdx;
  long liveAllocs;
  long failAlloc;
  // sync objects
  std::unordered_map<uintptr_t, AtomicLoc*>* atomics;
  std::vector<AtomicLoc*>* atomicPool;
  size_t atomicPoolUsed;
  std::unordered_map<uintptr_t, MutexSt>* mutexes;
  std::unordered_map<uintptr_t, CondSt>* conds;
  std::unordered_map<uintptr_t, std::vector<int>>* awaiters;
  std::unordered_map<uintptr_t, GuardSt>* guards;
  std::unordered_map<uintptr_t, ObjInfo>* objs;
  std::unordered_map<uintptr_t, VC>* tsanMu;
  VC   scF, scW;
  long now;
  int  ncpu;
  bool daemons, noleaks;
  // exploration
  std::vector<Node>* nodes;
  size_t npos;
  size_t nprefix;
  std::vector<Step>* steps;
  int  lastSched;
  int  preempts, stale, spur, early;
  int  livelock;
  // outcome
  int  result;  // 0 running 1 ok 2 violation 3 pruned 4 discard 5 internal error
  char msg[4096];
  char outc[8192];
  size_t outcN;
  std::vector<long>* log;
  long ctr[64];
  std::vector<std::string>* traceNotes;
  // statistics
  u64  execs, transitions, prunedExecs, discarded, maxSteps;
  u64  depthCap;
  std::unordered_set<u64>* states;
  u64  statesOverflow;
  std::map<std::string, u64>* outcomes;
  char const * violKind;
};

static Engine* E;

// ------------------------------------------------------------------------------------------------
// context switch
extern "C" void mc_ctx_switch(void** from, void* to);
asm(R"(
.text
.globl mc_ctx_switch
.type mc_ctx_switch,@function
mc_ctx_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_ctx_switch,.-mc_ctx_switch
)");

static inline Fiber& cur() { return E->f[E->cur]; }
#define IN_EXEC() (__builtin_expect(E && E->inExec, 1))

struct Host  // temporarily behave as the host (real malloc)
{
  bool o;
  Host() { o = E->inExec; E->inExec = false; }
  ~Host() { E->inExec = o; }
};

static void tls_out(Fiber& f)
{
  raw_copy(f.tls, E->tlsLo, E->tlsN);
  raw_copy(f.tls2, E->tls2Lo, E->tls2N);
}
static void tls_in(Fiber& f)
{
  raw_copy(E->tlsLo, f.tls, E->tlsN);
  raw_copy(E->tls2Lo, f.tls2, E->tls2N);
}

static void to_host()
{
  Fiber& f = cur();
  E->inExec = false;
  mc_ctx_switch(&f.sp, E->hostSp);
}

[[noreturn]] static void finish_exec(int result)
{
  E->result = result;
  to_host();
  __builtin_unreachable();
}

static void vviol(char const * kind, char const * fmt, va_list ap)
{
  E->violKind = kind;
  int n = snprintf(E->msg, sizeof E->msg, "[%s] ", kind);
  vsnprintf(E->msg + n, sizeof E->msg - n, fmt, ap);
}

[[noreturn]] static void violation(char const * kind, char const * fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  vviol(kind, fmt, ap);
  va_end(ap);
  finish_exec(2);
}

[[noreturn]] static void internal_error(char const * fmt, ...)
{
  char    b[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  E->inExec = false;
  dprintf(2, "MC-INTERNAL-ERROR: %s\n", b);
  _exit(3);
}

// ------------------------------------------------------------------------------------------------
// shadow memory
static inline Cell* shadow(uintptr_t a, size_t n)
{
  if (a - (uintptr_t) HEAP_BASE < HEAP_SIZE) return E->heapSh + (a - (uintptr_t) HEAP_BASE);
  if (a - (uintptr_t) STACK_BASE < STACK_SIZE * MAXT)
  {
    int o = (a - (uintptr_t) STACK_BASE) / STACK_SIZE;
    Fiber& f = E->f[o];
    if (a < f.stackMin) f.stackMin = a;
    return E->stackSh + (a - (uintptr_t) STACK_BASE);
  }
  if (a >= (uintptr_t) E->dataLo && a + n <= (uintptr_t) E->dataHi) return E->dataSh + (a - (uintptr_t) E->dataLo);
  return nullptr;
}

static std::string where(uintptr_t a)
{
  char b[256];
  if (a - (uintptr_t) HEAP_BASE < HEAP_SIZE)
  {
    for (auto& r : *E->allocs)
      if (a >= (uintptr_t) r.p && a < (uintptr_t) r.p + r.n)
      {
        snprintf(b, sizeof b, "heap block #%d (%zu bytes, allocated by T%d%s)+%zu", int(&r - E->allocs->data()), r.n, r.tid,
                 r.live ? "" : ", freed", size_t(a - (uintptr_t) r.p));
        return b;
      }
    return "heap (no block)";
  }
  if (a - (uintptr_t) STACK_BASE < STACK_SIZE * MAXT)
  {
    snprintf(b, sizeof b, "stack of T%d", int((a - (uintptr_t) STACK_BASE) / STACK_SIZE));
    return b;
  }
  if (a >= (uintptr_t) E->dataLo && a < (uintptr_t) E->dataHi) return "global data";
  snprintf(b, sizeof b, "address %#lx", (unsigned long) a);
  return b;
}

[[noreturn]] static void mem_violation(char const * kind, uintptr_t a, size_t n, bool w, void* pc, char const * extra)
{
  Host h;
  std::string s = where(a);
  h.o = false;
  E->inExec = true;
  Fiber& f = cur();
  violation(kind, "T%d %s of %zu bytes at %s pc=%p %s", f.id, w ? "write" : "read", n, s.c_str(), pc, extra);
}

static AtomicLoc* find_atomic(uintptr_t a)
{
  Host h;
  auto it = E->atomics->find(a);
  return it == E->atomics->end() || it->second->dead ? nullptr : it->second;
}

static void kill_atomics(uintptr_t a, VC const & vc, uintptr_t acc, size_t n, void* pc, bool w)
{
  // plain access to byte a that (may) belong to an atomic object or a mutex: check & (if write) retire it
  uintptr_t lo = a - 15;
  for (uintptr_t x = lo; x <= a; ++x)
  {
    AtomicLoc* l = find_atomic(x);
    if (!l || x + l->size <= a) continue;
    for (int t = 0; t < E->nf; ++t)
    {
      if (l->accW.c[t] > vc.c[t])
      {
        char b[128];
        snprintf(b, sizeof b, "races with atomic write by T%d", t);
        mem_violation("data-race", acc, n, w, pc, b);
      }
      if (w && l->accR.c[t] > vc.c[t])
      {
        char b[128];
        snprintf(b, sizeof b, "races with atomic read by T%d", t);
        mem_violation("data-race", acc, n, w, pc, b);
      }
    }
    if (w) l->dead = true;
  }
}

static inline u32 epoch(Fiber& f) { return (u32(f.id) << TID_SHIFT) | f.vc.c[f.id]; }
static inline int e_tid(u32 e) { return (e >> TID_SHIFT) & 15; }
static inline u32 e_clk(u32 e) { return e & CLK_MASK; }

static void check_dead_stack(uintptr_t a, size_t n, bool w, void* pc)
{
  int o = (a - (uintptr_t) STACK_BASE) / STACK_SIZE;
  if (o == E->cur) return;
  Fiber& f = E->f[o];
  if (!f.used || f.finished) mem_violation("dead-stack", a, n, w, pc, "thread has exited");
  if (a + 128 < (uintptr_t) f.sp) mem_violation("dead-stack", a, n, w, pc, "frame has returned");
}

static void access(uintptr_t a, size_t n, bool w, void* pc)
{
  Cell* s = shadow(a, n);
  if (!s) return;
  Fiber& f = cur();
  u32 ep = epoch(f);
  if (a - (uintptr_t) STACK_BASE < STACK_SIZE * MAXT) check_dead_stack(a, n, w, pc);
  for (size_t i = 0; i < n; ++i)
  {
    Cell& c = s[i];
    u32 W = c.W;
    if (W == W_NOTRACK) continue;
    if (__builtin_expect(W == W_DEAD, 0)) mem_violation("use-after-free/out-of-bounds", a, n, w, pc, "memory is not allocated");
    if (__builtin_expect(W & F_ATOMIC, 0))
    {
      kill_atomics(a + i, f.vc, a, n, pc, w);
      if (w) { W &= ~F_ATOMIC; c.W = W; }
    }
    u32 We = W & ~F_ATOMIC;
    if (w)
    {
      if (We == ep && c.R == 0) continue;
      if (e_clk(We) > f.vc.c[e_tid(We)])
      {
        char b[64];
        snprintf(b, sizeof b, "races with write by T%d", e_tid(We));
        mem_violation("data-race", a, n, w, pc, b);
      }
      if (c.R & F_SHARED)
      {
        VC& v = (*E->shared)[c.R & ~F_SHARED];
        for (int t = 0; t < E->nf; ++t)
          if (v.c[t] > f.vc.c[t])
          {
            char b[64];
            snprintf(b, sizeof b, "races with read by T%d", t);
            mem_violation("data-race", a, n, w, pc, b);
          }
      }
      else if (e_clk(c.R) > f.vc.c[e_tid(c.R)])
      {
        char b[64];
        snprintf(b, sizeof b, "races with read by T%d", e_tid(c.R));
        mem_violation("data-race", a, n, w, pc, b);
      }
      c.W = ep | (W & F_ATOMIC);
      c.R = 0;
    }
    else
    {
      if (c.R == ep) continue;
      if (e_clk(We) > f.vc.c[e_tid(We)])
      {
        char b[64];
        snprintf(b, sizeof b, "races with write by T%d", e_tid(We));
        mem_violation("data-race", a, n, w, pc, b);
      }
      if (c.R & F_SHARED) (*E->shared)[c.R & ~F_SHARED].c[f.id] = f.vc.c[f.id];
      else if (c.R == 0 || e_tid(c.R) == f.id || e_clk(c.R) <= f.vc.c[e_tid(c.R)]) c.R = ep;
      else
      {
        Host h;
        VC v;
        v.clear();
        v.c[e_tid(c.R)] = e_clk(c.R);
        v.c[f.id]       = f.vc.c[f.id];
        E->shared->push_back(v);
        c.R = F_SHARED | u32(E->shared->size() - 1);
      }
    }
  }
}

// validity + race check for an atomic access (against plain accesses)
static void atomic_access(uintptr_t a, size_t n, bool w, void* pc)
{
  Cell* s = shadow(a, n);
  if (!s) return;
  Fiber& f = cur();
  if (a - (uintptr_t) STACK_BASE < STACK_SIZE * MAXT) check_dead_stack(a, n, w, pc);
  for (size_t i = 0; i < n; ++i)
  {
    Cell& c = s[i];
    u32 W = c.W;
    if (W == W_NOTRACK) continue;
    if (W == W_DEAD) mem_violation("use-after-free/out-of-bounds", a, n, w, pc, "(atomic) memory is not allocated");
    u32 We = W & ~F_ATOMIC;
    if (e_clk(We) > f.vc.c[e_tid(We)])
    {
      char b[96];
      snprintf(b, sizeof b, "(atomic) races with plain write by T%d", e_tid(We));
      mem_violation("data-race", a, n, w, pc, b);
    }
    if (w && c.R)
    {
      if (c.R & F_SHARED)
      {
        VC& v = (*E->shared)[c.R & ~F_SHARED];
        for (int t = 0; t < E->nf; ++t)
          if (v.c[t] > f.vc.c[t]) mem_violation("data-race", a, n, w, pc, "(atomic) races with plain read");
      }
      else if (e_clk(c.R) > f.vc.c[e_tid(c.R)]) mem_violation("data-race", a, n, w, pc, "(atomic) races with plain read");
    }
    c.W = W | F_ATOMIC;
  }
}

// ------------------------------------------------------------------------------------------------
// heap arena
static long const REDZONE = 16;

static void* arena_alloc(size_t n, size_t align, void* pc)
{
  Fiber& f = cur();
  if (E->failAlloc > 0 && !f.xalloc)
    if (--E->failAlloc == 0) return nullptr;
  if (align < 16) align = 16;
  // objects whose size is a multiple of 64 get cache-line alignment for free; keep it simple otherwise
  char* base = HEAP_BASE + HEAP_PER_T * f.id;
  uintptr_t p = (uintptr_t) base + f.heapUsed + REDZONE;
  p = (p + align - 1) & ~(align - 1);
  if (n > HEAP_PER_T || p + n + REDZONE > (uintptr_t) base + HEAP_PER_T) internal_error("heap arena exhausted (%zu bytes requested)", n);
  f.heapUsed = p + n - (uintptr_t) base;
  Cell* s = E->heapSh + (p - (uintptr_t) HEAP_BASE);
  u32 w = f.xalloc ? W_NOTRACK : epoch(f);
  for (size_t i = 0; i < n; ++i) { s[i].W = w; s[i].R = 0; }
  raw_set((void*) p, 0xAB, n);
  {
    Host h;
    AllocRec r{};
    r.p = (char*) p; r.n = n; r.live = true; r.pc = pc; r.tid = f.id; r.freeTid = -1;
    r.immortal = f.guardDepth > 0;
    r.notrack  = f.xalloc;
    E->allocs->push_back(r);
    (*E->allocIdx)[(char*) p] = int(E->allocs->size() - 1);
  }
  if (!(f.guardDepth > 0)) ++E->liveAllocs;
  return (void*) p;
}

static void arena_free(void* p, void* pc)
{
  Host h0;
  auto it = E->allocIdx->find((char*) p);
  bool bad = it == E->allocIdx->end();
  AllocRec* r = bad ? nullptr : &(*E->allocs)[it->second];
  E->inExec = h0.o;
  if (bad) violation("bad-free", "T%d free of %p which is not the start of a block pc=%p", E->cur, p, pc);
  if (!r->live) violation("double-free", "T%d frees a block (%zu bytes) already freed by T%d pc=%p", E->cur, r->n, r->freeTid, pc);
  Cell* s = E->heapSh + ((char*) p - HEAP_BASE);
  if (!r->notrack) access((uintptr_t) p, r->n, true, pc);
  r->live = false; r->freeTid = E->cur; r->freePc = pc;
  for (size_t i = 0; i < r->n; ++i) { s[i].W = W_DEAD; s[i].R = 0; }
  raw_set(p, 0xDD, r->n);
  if (!r->immortal) --E->liveAllocs;
}

static inline bool in_arena(void* p) { return (uintptr_t) p - (uintptr_t) HEAP_BASE < HEAP_SIZE; }

#define PC() __builtin_return_address(0)

extern "C" {
void* malloc(size_t n)
{
  if (!E || !E->inExec) return __libc_malloc(n);
  return arena_alloc(n, 16, PC());
}
void free(void* p)
{
  if (!p) return;
  if (in_arena(p))
  {
    if (E->inExec) arena_free(p, PC());
    return;
  }
  if (!E || !E->inExec) __libc_free(p);
}
void* calloc(size_t a, size_t b)
{
  if (!E || !E->inExec) return __libc_calloc(a, b);
  void* p = arena_alloc(a * b, 16, PC());
  if (p) raw_set(p, 0, a * b);
  return p;
}
void* realloc(void* p, size_t n)
{
  if (!E || !E->inExec) return __libc_realloc(p, n);
  if (!p) return arena_alloc(n, 16, PC());
  if (!in_arena(p)) internal_error("realloc of a non-arena block inside an execution");
  size_t old;
  {
    Host h;
    auto it = E->allocIdx->find((char*) p);
    if (it == E->allocIdx->end()) internal_error("realloc");
    old = (*E->allocs)[it->second].n;
  }
  void* q = arena_alloc(n, 16, PC());
  if (!q) return q;
  raw_copy(q, p, old < n ? old : n);
  arena_free(p, PC());
  return q;
}
void* memalign(size_t al, size_t n)
{
  if (!E || !E->inExec) return __libc_memalign(al, n);
  return arena_alloc(n, al, PC());
}
void* aligned_alloc(size_t al, size_t n)
{
  if (!E || !E->inExec) return __libc_memalign(al, n);
  return arena_alloc(n, al, PC());
}
int posix_memalign(void** out, size_t al, size_t n)
{
  void* p = (!E || !E->inExec) ? __libc_memalign(al, n) : arena_alloc(n, al, PC());
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
size_t malloc_usable_size(void* p)
{
  if (!p || !in_arena(p)) return 0;
  Host h;
  auto it = E->allocIdx->find((char*) p);
  return it == E->allocIdx->end() ? 0 : (*E->allocs)[it->second].n;
}
}

// ------------------------------------------------------------------------------------------------
// exploration: choice nodes
static inline u64 mix(u64 h, u64 v)
{
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}

static unsigned data_choice(int dkind, unsigned n, u64 sig)
{
  if (n <= 1) return 0;
  Host h;
  if (E->npos < E->nodes->size())
  {
    Node& d = (*E->nodes)[E->npos++];
    if (d.type != 1 || d.n != n || d.dkind != dkind || d.sig != sig)
      internal_error("replay divergence at node %zu (data choice expected kind %d n %d, got kind %d n %u)", E->npos - 1, d.dkind, d.n, dkind, n);
    return d.chosen;
  }
  Node d{};
  d.type = 1; d.dkind = dkind; d.n = n; d.chosen = 0; d.sig = sig;
  d.preempts = E->preempts; d.stale = E->stale; d.spur = E->spur; d.early = E->early;
  d.prevSched = E->lastSched;
  d.step = int(E->steps->size());
  E->nodes->push_back(d);
  ++E->npos;
  return 0;
}

static bool spin_changed(Fiber& f)
{
  if (f.readset->empty()) return true;
  for (auto& r : *f.readset)
  {
    auto it = E->objs->find(r.a);
    u64 v = it == E->objs->end() ? 0 : it->second.version;
    if (v != r.ver) return true;
  }
  return false;
}

// can fiber t execute its pending operation now? (timer: only by letting its timeout expire)
static bool enabled(Fiber& f, bool& timer)
{
  timer = false;
  if (!f.used || f.finished) return false;
  switch (f.block)
  {
  case B_COND:
  {
    auto it = E->mutexes->find(f.pend.o1);
    bool mfree = it == E->mutexes->end() || it->second.owner < 0;
    if (f.signaled) return mfree;
    if (f.deadline >= 0 && mfree) { timer = true; return true; }
    return false;
  }
  case B_AWAIT:
    if (f.signaled) return true;
    if (f.deadline >= 0) { timer = true; return true; }
    return false;
  case B_SLEEP: timer = true; return true;
  case B_SPIN: return spin_changed(f);
  default: break;
  }
  switch (f.pend.kind)
  {
  case K_LOCK:
  {
    auto it = E->mutexes->find(f.pend.o1);
    return it == E->mutexes->end() || it->second.owner < 0 || (it->second.owner == f.id && it->second.depth < 0);
  }
  case K_JOIN:
    if (f.joinTarget >= 0) return E->f[f.joinTarget].finished;
    for (int t = 0; t < E->nf; ++t)
      if (t != f.id && E->f[t].used && !E->f[t].finished) return false;
    return true;
  case K_GUARD:
  case K_ONCE:
  {
    auto it = E->guards->find(f.pend.o1);
    return it == E->guards->end() || it->second.state != 1;
  }
  default: return true;
  }
}

static bool dependent(Pending const & a, Pending const & b)
{
  auto hit = [](uintptr_t x, bool wx, uintptr_t y, bool wy) { return x && x == y && (wx || wy); };
  return hit(a.o1, a.w1, b.o1, b.w1) || hit(a.o1, a.w1, b.o2, b.w2) || hit(a.o2, a.w2, b.o1, b.w1)
      || hit(a.o2, a.w2, b.o2, b.w2);
}

static std::string fiber_state()
{
  std::string s;
  for (int t = 0; t < E->nf; ++t)
  {
    Fiber& f = E->f[t];
    if (!f.used) continue;
    char b[160];
    snprintf(b, sizeof b, " T%d:%s%s", t, f.finished ? "finished" : kind_name[f.pend.kind],
             f.finished ? "" : f.block == B_COND ? "(blocked)" : f.block == B_AWAIT ? "(blocked)" : f.block == B_SPIN ? "(spinning)" : "");
    s += b;
    if (!f.finished && f.pend.pc) { snprintf(b, sizeof b, "@pc=%p", f.pend.pc); s += b; }
  }
  return s;
}

static void fingerprint_state()
{
  if (E->states->size() >= 6000000) { ++E->statesOverflow; return; }
  u64 h = 0;
  for (int t = 0; t < E->nf; ++t) h += mix(0x1234567 + t, E->f[t].fp);
  E->states->insert(h);
}

static int pick_next(int self, bool selfRunnable)
{
  // called in Host mode
  u16 en = 0, tm = 0, sp = 0;
  for (int t = 0; t < E->nf; ++t)
  {
    bool timer;
    if (enabled(E->f[t], timer)) { if (timer) tm |= 1u << t; else en |= 1u << t; }
    else if (E->f[t].used && !E->f[t].finished && E->f[t].block == B_SPIN) sp |= 1u << t;
  }
  // timers: only the earliest deadline may fire
  if (tm)
  {
    long best = -1;
    u16 m = 0;
    for (int t = 0; t < E->nf; ++t)
      if (tm >> t & 1)
      {
        long d = E->f[t].deadline;
        if (best < 0 || d < best) { best = d; m = 1u << t; }
        else if (d == best) m |= 1u << t;
      }
    tm = m;
    // a deadline that already passed is an ordinary wake-up
    if (best <= E->now) { en |= tm; tm = 0; }
  }
  if (!en)
  {
    if (tm) { en = tm; }
    else if (sp && E->livelock < 200)
    {
      // only spinners left: let them run a bounded number of extra rounds (bounded spins fall through)
      ++E->livelock;
      en = sp;
    }
    else
    {
      bool any = false;
      for (int t = 0; t < E->nf; ++t) any |= E->f[t].used && !E->f[t].finished;
      if (!any) return -1;
      if (E->daemons && E->f[0].finished) return -1;
      std::string s = fiber_state();
      E->inExec = true;
      violation(sp ? "livelock" : "deadlock", "no thread can make progress:%s", s.c_str());
    }
  }
  else if (tm && E->early < E->opt.early_timer) en |= tm;
  bool curEn = selfRunnable && (en >> self & 1) && !(tm >> self & 1);
  bool yield = selfRunnable && E->f[self].yielding;
  u64 sig = en;
  for (int t = 0; t < E->nf; ++t) sig = mix(sig, u64(E->f[t].pend.kind) * 131 + E->f[t].pend.o1);
  int chosen;
  Node* nd;
  if (E->npos < E->nodes->size())
  {
    nd = &(*E->nodes)[E->npos];
    if (nd->type != 0 || nd->sig != sig)
      internal_error("replay divergence at node %zu (sched; enabled %x vs %x, kind %d)", E->npos, nd->enabled, en, nd->type);
    chosen = nd->chosen;
  }
  else
  {
    Node d{};
    d.type = 0; d.cur = self < 0 ? 255 : self; d.enabled = en; d.sig = sig; d.curEnabled = curEn; d.curYield = yield;
    d.timers = tm & en & ~(en == tm ? tm : 0);
    d.spinb = sp;
    d.preempts = E->preempts; d.stale = E->stale; d.spur = E->spur; d.early = E->early;
    d.prevSched = E->lastSched;
    d.step = int(E->steps->size());
    // sleep sets (unbounded mode only)
    if (E->bound < 0 && E->opt.dpor && E->opt.stale == 0 && E->opt.spurious == 0 && E->opt.early_timer == 0 && E->lastSched >= 0)
    {
      Node& p = (*E->nodes)[E->lastSched];
      u16 cand = (p.sleep | p.done) & ~(1u << p.chosen);
      Pending const & ex = (*E->steps)[p.step].p;
      for (int t = 0; t < E->nf; ++t)
        if ((cand >> t & 1) && E->f[t].used && !dependent(E->f[t].pend, ex)) d.sleep |= 1u << t;
    }
    u16 avail = en & ~d.sleep & ~d.timers;
    if (!avail) avail = en & ~d.sleep;
    if (!avail) return -2;
    if (curEn && !yield && (avail >> self & 1)) chosen = self;
    else
    {
      chosen = -1;
      int from = self < 0 ? 0 : self + 1;
      for (int k = 0; k < E->nf && chosen < 0; ++k)
      {
        int t = (from + k) % E->nf;
        if (avail >> t & 1) chosen = t;
      }
    }
    d.chosen = chosen;
    d.backtrack = E->opt.dpor ? (1u << chosen) : (en & ~(yield && (en & ~(1u << self)) ? (1u << self) : 0));
    // early timers are environment choices: always branch on them
    d.backtrack |= d.timers;
    E->nodes->push_back(d);
    nd = &E->nodes->back();
  }
  E->lastSched = int(E->npos++);
  if (nd->curEnabled && !nd->curYield && chosen != nd->cur) ++E->preempts;
  if (nd->timers >> chosen & 1) ++E->early;
  return chosen;
}

static void add_backtrack(int node, int t)
{
  for (;;)
  {
    Node& n = (*E->nodes)[node];
    if (n.enabled >> t & 1) n.backtrack |= 1u << t;
    else if (n.spinb >> t & 1) {}
    else n.backtrack |= n.enabled;
    return;
  }
}

static void add_race(int stepIdx, Fiber& f)
{
  Step& s = (*E->steps)[stepIdx];
  int node = s.node;
  if (node < 0) return;
  if (E->bound >= 0)
  {
    add_backtrack(node, f.id);
    // conservative point: start of the block of the racing thread
    int k = node;
    for (;;)
    {
      int p = (*E->nodes)[k].prevSched;
      if (p < 0 || (*E->nodes)[p].chosen != (*E->nodes)[k].chosen) break;
      k = p;
    }
    if (k != node) add_backtrack(k, f.id);
    return;
  }
  // unbounded: source sets (Abdulla et al., POPL'14).  v = steps after s that s does not happen before,
  // followed by f's pending step; some initial of v must be in the backtrack set.
  u32 first[MAXT];
  for (int t = 0; t < MAXT; ++t) first[t] = 0;
  u16 init = 0;
  for (size_t k = stepIdx + 1; k < E->steps->size(); ++k)
  {
    Step& q = (*E->steps)[k];
    if (q.dvc[s.tid] >= s.local) continue;
    bool fresh = true;
    for (int t = 0; t < E->nf && fresh; ++t)
      if (first[t] && q.dvc[t] >= first[t]) fresh = false;
    if (!first[q.tid]) first[q.tid] = q.local;
    if (fresh) init |= 1u << q.tid;
  }
  {
    bool fresh = true;
    for (int t = 0; t < E->nf && fresh; ++t)
      if (first[t] && f.dvc[t] >= first[t]) fresh = false;
    // f's own pending step also depends on the objects it is about to touch (not yet in f.dvc)
    for (int k = 0; k < 2 && fresh; ++k)
    {
      uintptr_t o = k ? f.pend.o2 : f.pend.o1;
      if (!o) continue;
      auto it = E->objs->find(o);
      if (it == E->objs->end() || !it->second.key) continue;
      u32* d = (k ? f.pend.w2 : f.pend.w1) ? it->second.dvc : it->second.dvcW;
      // d includes s itself and everything ordered before the last accesses; only steps in v matter
      for (size_t j = stepIdx + 1; j < E->steps->size() && fresh; ++j)
      {
        Step& q = (*E->steps)[j];
        if (q.dvc[s.tid] >= s.local) continue;
        if (d[q.tid] >= q.local) fresh = false;
      }
    }
    if (fresh) init |= 1u << f.id;
  }
  Node& n = (*E->nodes)[node];
  u16 ok = init & n.enabled;
  if (!ok) { n.backtrack |= n.enabled; return; }
  if (ok & n.backtrack) return;
  // prefer the racing thread itself
  int t = (ok >> f.id & 1) ? f.id : __builtin_ctz(ok);
  n.backtrack |= 1u << t;
}

// account for the execution of f.pend by fiber f as the next step of the trace
static int record_step(Fiber& f)
{
  Host h;
  E->livelock = (f.pend.kind == K_STORE || f.pend.kind == K_EXIT || f.pend.kind == K_UNLOCK) ? 0 : E->livelock;
  int idx = int(E->steps->size());
  if (E->steps->size() >= E->opt.horizon)
  {
    std::string s = fiber_state();
    h.o = true; E->inExec = true;
    violation("horizon", "execution exceeds %u visible operations (non-termination):%s", E->opt.horizon, s.c_str());
  }
  Pending& p = f.pend;
  u64 fp = mix(f.fp, u64(p.kind) * 7919 + 1);
  for (int k = 0; k < 2; ++k)
  {
    uintptr_t o = k ? p.o2 : p.o1;
    bool w = k ? p.w2 : p.w1;
    if (!o) continue;
    ObjInfo& oi = (*E->objs)[o];
    if (!oi.key)
    {
      oi.key = o; oi.lastW = -1; oi.version = 0; oi.lastWtid = -1; oi.fp_w = mix(o, 3); oi.fp_r = 0;
      for (int t = 0; t < MAXT; ++t) { oi.lastR[t] = -1; oi.dvc[t] = oi.dvcW[t] = 0; }
    }
    bool isLock = p.kind == K_LOCK || p.kind == K_CWAKE;
    if (E->opt.dpor)
    {
      if (oi.lastW >= 0 && !(p.kind == K_UNLOCK))
      {
        int i = oi.lastW;
        // mutex: the co-enabled partner of a lock is the previous lock, not the unlock
        if (isLock && k == 0)
        {
          while (i >= 0 && (*E->steps)[i].p.kind == K_UNLOCK) i = oi.lastR[0];
        }
        if (i >= 0)
        {
          Step& s = (*E->steps)[i];
          if (s.tid != f.id && f.dvc[s.tid] < s.local) add_race(i, f);
        }
      }
      if (w && !isLock && p.kind != K_UNLOCK)
        for (int t = 0; t < E->nf; ++t)
          if (t != f.id && oi.lastR[t] >= 0 && f.dvc[t] < (*E->steps)[oi.lastR[t]].local) add_race(oi.lastR[t], f);
    }
    if (w)
    {
      fp = mix(fp, mix(oi.fp_w, oi.fp_r));
      for (int t = 0; t < MAXT; ++t) f.dvc[t] = std::max(f.dvc[t], oi.dvc[t]);
    }
    else
    {
      fp = mix(fp, oi.fp_w);
      for (int t = 0; t < MAXT; ++t) f.dvc[t] = std::max(f.dvc[t], oi.dvcW[t]);
    }
  }
  f.fp = fp;
  ++f.nsteps;
  f.dvc[f.id] = f.nsteps;
  for (int k = 0; k < 2; ++k)
  {
    uintptr_t o = k ? p.o2 : p.o1;
    bool w = k ? p.w2 : p.w1;
    if (!o) continue;
    ObjInfo& oi = (*E->objs)[o];
    if (w)
    {
      bool mtx = p.kind == K_LOCK || p.kind == K_CWAKE || p.kind == K_UNLOCK;
      if (mtx && p.kind != K_UNLOCK && k == 0) { for (int t = 0; t < MAXT; ++t) oi.lastR[t] = -1; oi.lastR[0] = idx; }
      else if (!mtx) for (int t = 0; t < MAXT; ++t) oi.lastR[t] = -1;
      oi.lastW = idx;
      oi.lastWtid = f.id;
      ++oi.version;
      oi.fp_w = fp; oi.fp_r = 0;
      for (int t = 0; t < MAXT; ++t) oi.dvc[t] = oi.dvcW[t] = f.dvc[t];
    }
    else
    {
      oi.lastR[f.id] = idx;
      oi.fp_r += mix(fp, 17);
      for (int t = 0; t < MAXT; ++t) oi.dvc[t] = std::max(oi.dvc[t], f.dvc[t]);
    }
  }
  Step s;
  s.tid = f.id; s.p = p; s.node = E->lastSched; s.local = f.nsteps; s.val = 0;
  for (int t = 0; t < MAXT; ++t) s.dvc[t] = f.dvc[t];
  E->steps->push_back(s);
  ++E->transitions;
  fingerprint_state();
  return idx;
}

static void switch_to(int t)
{
  if (t == E->cur) return;
  Fiber& me = cur();
  tls_out(me);
  int my = E->cur;
  E->cur = t;
  tls_in(E->f[t]);
  mc_ctx_switch(&me.sp, E->f[t].sp);
  (void) my;
}

// The scheduling point.  On return this fiber has been selected to execute f.pend; the step is recorded.
static int sched(Kind k, uintptr_t o1, bool w1, void* pc, uintptr_t o2 = 0, bool w2 = false)
{
  Fiber& f = cur();
  f.pend = Pending{k, w1, w2, o1, o2, pc};
  if (f.block == B_SPIN && k != K_YIELD)
  {
    // the re-read heuristic only blocks a thread that is about to read the same location yet again
    bool again = (k == K_LOAD || k == K_CAS || k == K_RMW) && !f.readset->empty() && f.readset->front().a == o1;
    if (!again) { f.block = B_NONE; f.forceFresh = false; f.spinCnt = 0; }
  }
  int t;
  {
    Host h;
    t = pick_next(f.id, true);
    f.yielding = false;
  }
  if (t == -2) finish_exec(3);
  if (t < 0) internal_error("no runnable fiber at a scheduling point");
  switch_to(t);
  if (f.block == B_SPIN)
  {
    f.block = B_NONE;
    f.readset->clear();
  }
  if (f.block == B_NONE || f.block == B_COND || f.block == B_AWAIT || f.block == B_SLEEP) {}
  f.vc.c[f.id]++;
  f.vis.c[f.id] = f.vc.c[f.id];
  return record_step(f);
}

// ---- spin handling ----
static void note_read(Fiber& f, uintptr_t o)
{
  Host h;
  u64 ver = 0;
  auto it = E->objs->find(o);
  if (it != E->objs->end()) ver = it->second.version;
  for (auto& r : *f.readset)
    if (r.a == o) { r.ver = ver; return; }
  if (f.readset->size() < 32) f.readset->push_back({o, ver});
}
static void note_progress(Fiber& f)
{
  f.readset->clear();
  f.spinCnt = 0;
  f.spinAddr = 0;
}

static inline uintptr_t key(uintptr_t a) { return a & ~uintptr_t(7); }
static inline uintptr_t qkey(uintptr_t a) { return (a & ~uintptr_t(7)) | 1; }

// called after a load (or value-preserving rmw) that returned v from a
static void spin_check(Fiber& f, uintptr_t a, u64 v)
{
  note_read(f, key(a));
  if (f.spinAddr == a && f.spinVal == v)
  {
    if (++f.spinCnt >= 2)
    {
      // the same thread re-reads the same value: wait for a write
      f.block = B_SPIN;
      f.spinCnt = 0;
      f.forceFresh = true;
      Host h;
      f.readset->clear();
      u64 ver = 0;
      auto it = E->objs->find(key(a));
      if (it != E->objs->end()) ver = it->second.version;
      f.readset->push_back({key(a), ver});
    }
  }
  else
  {
    f.spinAddr = a;
    f.spinVal  = v;
    f.spinCnt  = 0;
  }
}

// ------------------------------------------------------------------------------------------------
// atomics
static u64 rd(uintptr_t a, int n)
{
  switch (n)
  {
  case 1: return *(volatile u8*) a;
  case 2: return *(volatile u16*) a;
  case 4: return *(volatile u32*) a;
  default: return *(volatile u64*) a;
  }
}
static void wr(uintptr_t a, int n, u64 v)
{
  switch (n)
  {
  case 1: *(volatile u8*) a = u8(v); break;
  case 2: *(volatile u16*) a = u16(v); break;
  case 4: *(volatile u32*) a = u32(v); break;
  default: *(volatile u64*) a = v; break;
  }
}

static AtomicLoc* get_loc(uintptr_t a, int n)
{
  Host h;
  auto it = E->atomics->find(a);
  AtomicLoc* l = nullptr;
  if (it != E->atomics->end()) l = it->second;
  if (l && !l->dead && l->size == n && l->hist.size() && l->hist.back().lo == rd(a, n)) return l;
  if (l && !l->dead && l->size != n)
  {
    // differently sized view: keep access clocks, restart the history
  }
  if (!l)
  {
    if (E->atomicPoolUsed == E->atomicPool->size()) E->atomicPool->push_back(new AtomicLoc());
    l = (*E->atomicPool)[E->atomicPoolUsed++];
    (*E->atomics)[a] = l;
    l->dead = true;
  }
  if (l->dead)
  {
    l->accW.clear();
    l->accR.clear();
  }
  l->addr = a; l->size = n; l->dead = false; l->base = 0;
  l->hist.clear();
  raw_set(l->myMin, 0, sizeof l->myMin);
  StoreRec r{};
  r.lo = rd(a, n); r.tid = -1; r.clk = 0; r.sc = false; r.rel.clear();
  l->hist.push_back(r);
  return l;
}

static void do_acquire(Fiber& f, StoreRec const & s, int mo)
{
  if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)
  {
    f.vc.join(s.rel);
    f.vis.join(s.rel);
  }
  f.acqF.join(s.rel);
}

static bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

static void push_store(Fiber& f, AtomicLoc* l, u64 v, int mo, bool rmw)
{
  StoreRec r{};
  r.lo = v; r.tid = f.id; r.clk = f.vc.c[f.id]; r.sc = mo == __ATOMIC_SEQ_CST;
  r.rel.clear();
  if (is_rel(mo)) r.rel = f.vc;
  else if (f.hasRelF) r.rel = f.relF;
  if (rmw) r.rel.join(l->hist.back().rel);
  r.seen[f.id] = f.vc.c[f.id];
  if (l->hist.size() >= 12)
  {
    l->hist.erase(l->hist.begin());
    ++l->base;
  }
  l->hist.push_back(r);
  l->myMin[f.id] = l->base + u32(l->hist.size()) - 1;
  if (mo == __ATOMIC_SEQ_CST && E->scW.c[f.id] < r.clk) E->scW.c[f.id] = r.clk;
}

static void release_bump(Fiber& f)
{
  // everything after a release belongs to a new epoch
  f.vc.c[f.id]++;
  f.vis.c[f.id] = f.vc.c[f.id];
}

static StoreRec& choose_store(Fiber& f, AtomicLoc* l, int mo, bool allowStale)
{
  size_t n = l->hist.size();
  size_t lo = n - 1;
  if (allowStale && E->stale < E->opt.stale && !f.forceFresh && n > 1)
  {
    VC const & vis = f.vis;
    for (size_t j = n; j-- > 0;)
    {
      lo = j;
      StoreRec& s = l->hist[j];
      if (s.tid < 0) break;
      if (l->base + j <= l->myMin[f.id]) break;
      if (s.clk <= vis.c[s.tid]) break;
      bool stop = false;
      for (int t = 0; t < E->nf; ++t)
        if (s.seen[t] && s.seen[t] <= vis.c[t]) { stop = true; break; }
      if (stop) break;
      if (mo == __ATOMIC_SEQ_CST && (s.sc || s.clk <= E->scF.c[s.tid])) break;
    }
  }
  size_t pick = n - 1;
  if (lo != n - 1)
  {
    unsigned c = data_choice(1, unsigned(n - lo), key(l->addr));
    if (c) ++E->stale;
    pick = n - 1 - c;
  }
  f.forceFresh = false;
  StoreRec& s = l->hist[pick];
  u32 ai = l->base + u32(pick);
  if (l->myMin[f.id] < ai) l->myMin[f.id] = ai;
  if (!s.seen[f.id]) s.seen[f.id] = f.vc.c[f.id];
  return s;
}

static u64 a_load(uintptr_t a, int n, int mo, void* pc)
{
  Fiber& f = cur();
  bool sc2 = E->opt.stale && mo == __ATOMIC_SEQ_CST;
  int st = sched(K_LOAD, key(a), false, pc, sc2 ? 5 : 0, sc2);
  atomic_access(a, n, false, pc);
  AtomicLoc* l = get_loc(a, n);
  l->accR.c[f.id] = f.vc.c[f.id];
  StoreRec& s = choose_store(f, l, mo, true);
  u64 v = s.lo;
  do_acquire(f, s, mo);
  (*E->steps)[st].val = v;
  f.fp = mix(f.fp, v);
  spin_check(f, a, v);
  return v;
}

static void a_store(uintptr_t a, int n, u64 v, int mo, void* pc)
{
  Fiber& f = cur();
  bool sc2 = E->opt.stale && mo == __ATOMIC_SEQ_CST;
  int st = sched(K_STORE, key(a), true, pc, sc2 ? 5 : 0, sc2);
  atomic_access(a, n, true, pc);
  AtomicLoc* l = get_loc(a, n);
  l->accW.c[f.id] = f.vc.c[f.id];
  {
    Host h;
    push_store(f, l, v, mo, false);
  }
  wr(a, n, v);
  l->hist.back().lo = rd(a, n);
  (*E->steps)[st].val = v;
  note_progress(f);
  release_bump(f);
}

template <class Op>
static u64 a_rmw(uintptr_t a, int n, int mo, void* pc, Op op)
{
  Fiber& f = cur();
  bool sc2 = E->opt.stale && mo == __ATOMIC_SEQ_CST;
  int st = sched(K_RMW, key(a), true, pc, sc2 ? 5 : 0, sc2);
  atomic_access(a, n, true, pc);
  AtomicLoc* l = get_loc(a, n);
  l->accW.c[f.id] = f.vc.c[f.id];
  l->accR.c[f.id] = f.vc.c[f.id];
  StoreRec& s = l->hist.back();
  u64 old = s.lo;
  do_acquire(f, s, mo);
  u64 nv = op(old);
  {
    Host h;
    push_store(f, l, nv, mo, true);
  }
  wr(a, n, nv);
  l->hist.back().lo = rd(a, n);
  (*E->steps)[st].val = l->hist.back().lo;
  f.fp = mix(f.fp, old);
  if (l->hist.back().lo == old) spin_check(f, a, old);
  else note_progress(f);
  release_bump(f);
  return old;
}

static bool a_cas(uintptr_t a, int n, u64& expected, u64 desired, int mo, int fmo, bool weak, void* pc)
{
  Fiber& f = cur();
  bool sc2 = E->opt.stale && mo == __ATOMIC_SEQ_CST;
  int st = sched(K_CAS, key(a), true, pc, sc2 ? 5 : 0, sc2);
  atomic_access(a, n, true, pc);
  AtomicLoc* l = get_loc(a, n);
  StoreRec& s = l->hist.back();
  u64 old = s.lo;
  bool ok = old == expected;
  if (ok && weak && E->spur < E->opt.spurious)
  {
    if (data_choice(2, 2, key(a)))
    {
      ++E->spur;
      ok = false;
    }
  }
  f.fp = mix(f.fp, old * 2 + ok);
  l->accR.c[f.id] = f.vc.c[f.id];
  if (ok)
  {
    l->accW.c[f.id] = f.vc.c[f.id];
    do_acquire(f, s, mo);
    {
      Host h;
      push_store(f, l, desired, mo, true);
    }
    wr(a, n, desired);
    l->hist.back().lo = rd(a, n);
    (*E->steps)[st].val = desired;
    note_progress(f);
    release_bump(f);
    return true;
  }
  do_acquire(f, s, fmo);
  if (!s.seen[f.id]) s.seen[f.id] = f.vc.c[f.id];
  l->myMin[f.id] = l->base + u32(l->hist.size()) - 1;
  (*E->steps)[st].val = old;
  expected = old;
  spin_check(f, a, old);
  return false;
}

static void a_fence(int mo, void* pc)
{
  Fiber& f = cur();
  if (E->opt.stale) sched(K_FENCE, mo == __ATOMIC_SEQ_CST ? 5 : 0, true, pc);
  if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME)
  {
    f.vc.join(f.acqF);
    f.vis.join(f.acqF);
  }
  if (mo == __ATOMIC_SEQ_CST)
  {
    f.vis.join(E->scF);
    f.vis.join(E->scW);
    E->scF.join(f.vis);
  }
  if (is_rel(mo))
  {
    f.relF = f.vc;
    f.hasRelF = true;
    release_bump(f);
  }
}

#define RA ((uintptr_t) a)
#define GEN(BITS, T)                                                                                              \
  extern "C" T __tsan_atomic##BITS##_load(T const volatile* a, int mo)                                            \
  {                                                                                                               \
    if (!IN_EXEC()) return *a;                                                                                    \
    return T(a_load(RA, sizeof(T), mo, PC()));                                                                    \
  }                                                                                                               \
  extern "C" void __tsan_atomic##BITS##_store(T volatile* a, T v, int mo)                                         \
  {                                                                                                               \
    if (!IN_EXEC()) { *a = v; return; }                                                                           \
    a_store(RA, sizeof(T), u64(v), mo, PC());                                                                     \
  }                                                                                                               \
  extern "C" T __tsan_atomic##BITS##_exchange(T volatile* a, T v, int mo)                                         \
  {                                                                                                               \
    if (!IN_EXEC()) { T o = *a; *a = v; return o; }                                                               \
    return T(a_rmw(RA, sizeof(T), mo, PC(), [=](u64) { return u64(v); }));                                        \
  }                                                                                                               \
  extern "C" T __tsan_atomic##BITS##_fetch_add(T volatile* a, T v, int mo)                                        \
  {                                                                                                               \
    if (!IN_EXEC()) { T o = *a; *a = T(o + v); return o; }                                                        \
    return T(a_rmw(RA, sizeof(T), mo, PC(), [=](u64 o) { return u64(T(T(o) + v)); }));                            \
  }                                                                                                               \
  extern "C" T __tsan_atomic##BITS##_fetch_sub(T volatile* a, T v, int mo)                                        \
  {                                                                                                               \
    if (!IN_EXEC()) { T o = *a; *a = T(o - v); return o; }                                                        \
    return T(a_rmw(RA, sizeof(T), mo, PC(), [=](u64 o) { return u64(T(T(o) - v)); }));                            \
  }                                                                                                               \
  extern "C" T __tsan_atomic##BITS##_fetch_and(T volatile* a, T v, int mo)                                        \
  {                                                                                                               \
    if (!IN_EXEC()) { T o = *a; *a = T(o & v); return o; }                                                        \
    return T(a_rmw(RA, sizeof(T), mo, PC(), [=](u64 o) { return u64(T(T(o) & v)); }));                            \
  }                                                                                                               \
  extern "C" T __tsan_atomic##BITS##_fetch_or(T volatile* a, T v, int mo)                                         \
  {                                                                                                               \
    if (!IN_EXEC()) { T o = *a; *a = T(o | v); return o; }                                                        \
    return T(a_rmw(RA, sizeof(T), mo, PC(), [=](u64 o) { return u64(T(T(o) | v)); }));                            \
  }                                                                                                               \
  extern "C" T __tsan_atomic##BITS##_fetch_xor(T volatile* a, T v, int mo)                                        \
  {                                                                                                               \
    if (!IN_EXEC()) { T o = *a; *a = T(o ^ v); return o; }                                                        \
    return T(a_rmw(RA, sizeof(T), mo, PC(), [=](u64 o) { return u64(T(T(o) ^ v)); }));                            \
  }                                                                                                               \
  extern "C" T __tsan_atomic##BITS##_fetch_nand(T volatile* a, T v, int mo)                                       \
  {                                                                                                               \
    if (!IN_EXEC()) { T o = *a; *a = T(~(o & v)); return o; }                                                     \
    return T(a_rmw(RA, sizeof(T), mo, PC(), [=](u64 o) { return u64(T(~(T(o) & v))); }));                         \
  }                                                                                                               \
  extern "C" int __tsan_atomic##BITS##_compare_exchange_strong(T volatile* a, T* e, T v, int mo, int fmo)         \
  {                                                                                                               \
    if (!IN_EXEC()) { T o = *a; if (o == *e) { *a = v; return 1; } *e = o; return 0; }                            \
    u64 x = u64(*e);                                                                                              \
    bool r = a_cas(RA, sizeof(T), x, u64(v), mo, fmo, false, PC());                                               \
    if (!r) *e = T(x);                                                                                            \
    return r;                                                                                                     \
  }                                                                                                               \
  extern "C" int __tsan_atomic##BITS##_compare_exchange_weak(T volatile* a, T* e, T v, int mo, int fmo)           \
  {                                                                                                               \
    if (!IN_EXEC()) { T o = *a; if (o == *e) { *a = v; return 1; } *e = o; return 0; }                            \
    u64 x = u64(*e);                                                                                              \
    bool r = a_cas(RA, sizeof(T), x, u64(v), mo, fmo, true, PC());                                                \
    if (!r) *e = T(x);                                                                                            \
    return r;                                                                                                     \
  }                                                                                                               \
  extern "C" T __tsan_atomic##BITS##_compare_exchange_val(T volatile* a, T e, T v, int mo, int fmo)               \
  {                                                                                                               \
    if (!IN_EXEC()) { T o = *a; if (o == e) *a = v; return o; }                                                   \
    u64 x = u64(e);                                                                                               \
    a_cas(RA, sizeof(T), x, u64(v), mo, fmo, false, PC());                                                        \
    return T(x);                                                                                                  \
  }
GEN(8, u8)
GEN(16, u16)
GEN(32, u32)
GEN(64, u64)

extern "C" void __tsan_atomic_thread_fence(int mo)
{
  if (IN_EXEC()) a_fence(mo, PC());
}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------------------------------------
// plain accesses
#define ACC(NAME, N, W)                                                                            \
  extern "C" void NAME(void* p)                                                                    \
  {                                                                                                \
    if (IN_EXEC()) access((uintptr_t) p, N, W, PC());                                              \
  }
ACC(__tsan_read1, 1, false)
ACC(__tsan_read2, 2, false)
ACC(__tsan_read4, 4, false)
ACC(__tsan_read8, 8, false)
ACC(__tsan_read16, 16, false)
ACC(__tsan_write1, 1, true)
ACC(__tsan_write2, 2, true)
ACC(__tsan_write4, 4, true)
ACC(__tsan_write8, 8, true)
ACC(__tsan_write16, 16, true)
ACC(__tsan_unaligned_read2, 2, false)
ACC(__tsan_unaligned_read4, 4, false)
ACC(__tsan_unaligned_read8, 8, false)
ACC(__tsan_unaligned_read16, 16, false)
ACC(__tsan_unaligned_write2, 2, true)
ACC(__tsan_unaligned_write4, 4, true)
ACC(__tsan_unaligned_write8, 8, true)
ACC(__tsan_unaligned_write16, 16, true)
ACC(__tsan_vptr_read, 8, false)
extern "C" void __tsan_vptr_update(void** p, void* v)
{
  if (IN_EXEC())
  {
    if (*p == v) access((uintptr_t) p, 8, false, PC());
    else access((uintptr_t) p, 8, true, PC());
  }
}
extern "C" void __tsan_read_range(void* p, unsigned long n)
{
  if (IN_EXEC() && n) access((uintptr_t) p, n, false, PC());
}
extern "C" void __tsan_write_range(void* p, unsigned long n)
{
  if (IN_EXEC() && n) access((uintptr_t) p, n, true, PC());
}
extern "C" void __tsan_func_entry(void*) {}
extern "C" void __tsan_func_exit() {}
extern "C" void __tsan_init() {}
extern "C" void __tsan_ignore_thread_begin() {}
extern "C" void __tsan_ignore_thread_end() {}

extern "C" void* memcpy(void* d, void const * s, size_t n)
{
  if (E && E->inExec && n)
  {
    access((uintptr_t) s, n, false, PC());
    access((uintptr_t) d, n, true, PC());
  }
  raw_copy(d, s, n);
  return d;
}
extern "C" void* memmove(void* d, void const * s, size_t n)
{
  if (E && E->inExec && n)
  {
    access((uintptr_t) s, n, false, PC());
    access((uintptr_t) d, n, true, PC());
  }
  if ((uintptr_t) d <= (uintptr_t) s || (uintptr_t) d >= (uintptr_t) s + n) raw_copy(d, s, n);
  else
  {
    char*       dd = (char*) d;
    char const * ss = (char const *) s;
    while (n--) ((volatile char*) dd)[n] = ss[n];
  }
  return d;
}
extern "C" void* memset(void* d, int c, size_t n)
{
  if (E && E->inExec && n) access((uintptr_t) d, n, true, PC());
  void* r = d;
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}
extern "C" void* __tsan_memcpy(void* d, void const * s, size_t n) { return memcpy(d, s, n); }
extern "C" void* __tsan_memmove(void* d, void const * s, size_t n) { return memmove(d, s, n); }
extern "C" void* __tsan_memset(void* d, int c, size_t n) { return memset(d, c, n); }

// annotations used by libstdc++'s atomic<shared_ptr> and by __intrusive_ptr
static void hb_acquire(void* a)
{
  Host h;
  auto it = E->tsanMu->find((uintptr_t) a);
  if (it != E->tsanMu->end()) { cur().vc.join(it->second); cur().vis.join(it->second); }
}
static void hb_release(void* a)
{
  Host h;
  auto it = E->tsanMu->find((uintptr_t) a);
  if (it == E->tsanMu->end()) { VC v; v.clear(); it = E->tsanMu->emplace((uintptr_t) a, v).first; }
  it->second.join(cur().vc);
  release_bump(cur());
}
extern "C" {
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void* a, unsigned) { if (IN_EXEC()) { Host h; E->tsanMu->erase((uintptr_t) a); } }
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void* a, unsigned flags, int)
{
  if (IN_EXEC() && !(flags & (1 << 5)) && !(flags & (1 << 3 & 0))) hb_acquire(a);
}
int  __tsan_mutex_pre_unlock(void* a, unsigned) { if (IN_EXEC()) hb_release(a); return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_pre_divert(void*, unsigned) {}
void __tsan_mutex_post_divert(void*, unsigned) {}
void __tsan_acquire(void* a) { if (IN_EXEC()) hb_acquire(a); }
void __tsan_release(void* a) { if (IN_EXEC()) hb_release(a); }
}

// ------------------------------------------------------------------------------------------------
// atomic wait / notify
extern "C" void mc_atomic_wait(void const * a, void const * old, unsigned long n) noexcept
{
  if (!IN_EXEC()) return;
  Fiber& f = cur();
  sched(K_AWAIT, key((uintptr_t) a), false, PC(), qkey((uintptr_t) a), true);
  atomic_access((uintptr_t) a, n, false, PC());
  note_progress(f);
  if (__builtin_memcmp(a, old, n) != 0) { f.spinAddr = 0; return; }
  {
    Host h;
    (*E->awaiters)[(uintptr_t) a].push_back(f.id);
  }
  f.block = B_AWAIT;
  f.signaled = false;
  f.deadline = -1;
  f.waitaddr = (uintptr_t) a;
  sched(K_AWOKEN, qkey((uintptr_t) a), false, PC());
  f.block = B_NONE;
  f.forceFresh = true;
}
extern "C" void mc_atomic_notify(void const * a, int all) noexcept
{
  if (!IN_EXEC()) return;
  sched(K_ANOTIFY, qkey((uintptr_t) a), true, PC());
  Host h;
  auto it = E->awaiters->find((uintptr_t) a);
  if (it == E->awaiters->end()) return;
  auto& v = it->second;
  if (v.empty()) return;
  if (all)
  {
    for (int t : v) E->f[t].signaled = true;
    v.clear();
  }
  else
  {
    unsigned k;
    {
      bool o = h.o;
      k = v.size() > 1 ? data_choice(3, unsigned(v.size()), qkey((uintptr_t) a)) : 0;
      h.o = o;
    }
    E->f[v[k]].signaled = true;
    v.erase(v.begin() + k);
  }
}

// ------------------------------------------------------------------------------------------------
// mutex / cond / once / guards
static MutexSt& mtx(void* m)
{
  auto it = E->mutexes->find((uintptr_t) m);
  if (it == E->mutexes->end())
  {
    MutexSt s;
    s.vc.clear();
    it = E->mutexes->emplace((uintptr_t) m, s).first;
  }
  return it->second;
}
static bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

static void mutex_touch(pthread_mutex_t* m, void* pc)
{
  Fiber& f = cur();
  atomic_access((uintptr_t) m, 8, true, pc);
  AtomicLoc* l = get_loc((uintptr_t) m, 8);
  l->accW.c[f.id] = f.vc.c[f.id];
}

static void acquire_mutex(pthread_mutex_t* m)
{
  Fiber& f = cur();
  Host h;
  MutexSt& s = mtx(m);
  if (s.owner >= 0 && s.owner != f.id) internal_error("mutex acquired while owned");
  s.owner = f.id;
  s.depth++;
  f.vc.join(s.vc);
  f.vis.join(s.vc);
}
static void release_mutex(pthread_mutex_t* m)
{
  Fiber& f = cur();
  Host h;
  MutexSt& s = mtx(m);
  if (--s.depth == 0)
  {
    s.owner = -1;
    s.vc = f.vc;
    release_bump(f);
  }
}

extern "C" {
int pthread_mutex_init(pthread_mutex_t* m, pthread_mutexattr_t const * at)
{
  pthread_mutex_t z = PTHREAD_MUTEX_INITIALIZER;
  if (at)
  {
    int ty = 0;
    pthread_mutexattr_gettype(at, &ty);
    z.__data.__kind = ty;
  }
  if (IN_EXEC())
  {
    access((uintptr_t) m, sizeof *m, true, PC());
    Host h;
    E->mutexes->erase((uintptr_t) m);
  }
  raw_copy(m, &z, sizeof z);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
  if (IN_EXEC())
  {
    access((uintptr_t) m, sizeof *m, true, PC());
    Host h;
    E->mutexes->erase((uintptr_t) m);
  }
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
  if (!IN_EXEC()) return 0;
  Fiber& f = cur();
  {
    bool self;
    {
      Host h;
      MutexSt& s = mtx(m);
      self = s.owner == f.id;
    }
    if (self)
    {
      if (is_recursive(m)) { Host h; mtx(m).depth++; return 0; }
      violation("deadlock", "T%d locks a mutex it already owns pc=%p", f.id, PC());
    }
  }
  mutex_touch(m, PC());
  sched(K_LOCK, (uintptr_t) m, true, PC());
  mutex_touch(m, PC());
  acquire_mutex(m);
  note_progress(f);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
  if (!IN_EXEC()) return 0;
  sched(K_TRYLOCK, (uintptr_t) m, true, PC());
  mutex_touch(m, PC());
  {
    Host h;
    MutexSt& s = mtx(m);
    if (s.owner >= 0 && !(s.owner == E->cur && is_recursive(m))) return EBUSY;
  }
  acquire_mutex(m);
  note_progress(cur());
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, timespec const *) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, timespec const *) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m)
{
  if (!IN_EXEC()) return 0;
  Fiber& f = cur();
  bool mine;
  {
    Host h;
    mine = mtx(m).owner == f.id;
  }
  if (!mine) violation("bad-unlock", "T%d unlocks a mutex it does not own pc=%p", f.id, PC());
  if (E->opt.dpor) sched(K_UNLOCK, (uintptr_t) m, true, PC());
  else
  {
    f.pend = Pending{K_UNLOCK, true, false, (uintptr_t) m, 0, PC()};
    f.vc.c[f.id]++;
    f.vis.c[f.id] = f.vc.c[f.id];
    record_step(f);
  }
  mutex_touch(m, PC());
  release_mutex(m);
  return 0;
}

int pthread_cond_init(pthread_cond_t* c, pthread_condattr_t const *)
{
  pthread_cond_t z = PTHREAD_COND_INITIALIZER;
  if (IN_EXEC()) access((uintptr_t) c, sizeof *c, true, PC());
  raw_copy(c, &z, sizeof z);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c)
{
  if (IN_EXEC())
  {
    access((uintptr_t) c, sizeof *c, true, PC());
    Host h;
    auto it = E->conds->find((uintptr_t) c);
    if (it != E->conds->end())
    {
      bool w = !it->second.waiters.empty();
      E->conds->erase(it);
      if (w) { h.o = true; E->inExec = true; violation("cond-destroy", "condition variable destroyed while a thread waits on it"); }
    }
  }
  return 0;
}
static void cond_touch(pthread_cond_t* c, void* pc)
{
  Fiber& f = cur();
  atomic_access((uintptr_t) c, 8, true, pc);
  AtomicLoc* l = get_loc((uintptr_t) c, 8);
  l->accW.c[f.id] = f.vc.c[f.id];
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, long deadline, void* pc)
{
  Fiber& f = cur();
  sched(K_CWAIT, (uintptr_t) c, true, pc, (uintptr_t) m, true);
  cond_touch(c, pc);
  note_progress(f);
  {
    bool mine;
    {
      Host h;
      mine = mtx(m).owner == f.id;
    }
    if (!mine) violation("bad-unlock", "cond_wait without owning the mutex");
  }
  release_mutex(m);
  bool spurious = false;
  if (E->spur < E->opt.spurious && data_choice(2, 2, (u64) c))
  {
    ++E->spur;
    spurious = true;
  }
  f.signaled = spurious;
  f.timedout = false;
  f.deadline = deadline;
  if (!spurious)
  {
    Host h;
    (*E->conds)[(uintptr_t) c].waiters.push_back(f.id);
  }
  f.block = B_COND;
  sched(K_CWAKE, (uintptr_t) m, true, pc);
  f.block = B_NONE;
  int rc = 0;
  if (!f.signaled)
  {
    if (E->now < deadline) E->now = deadline;
    rc = ETIMEDOUT;
    Host h;
    auto& w = (*E->conds)[(uintptr_t) c].waiters;
    w.erase(std::remove(w.begin(), w.end(), f.id), w.end());
  }
  f.deadline = -1;
  mutex_touch(m, pc);
  acquire_mutex(m);
  note_progress(f);
  return rc;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
  if (!IN_EXEC()) internal_error("cond wait outside an execution");
  return cond_wait(c, m, -1, PC());
}
static long ts_ns(timespec const * t)
{
  if (t->tv_sec > 4000000000l) return 4000000000l * 1000000000l;
  return t->tv_sec * 1000000000l + t->tv_nsec;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const * t)
{
  return cond_wait(c, m, ts_ns(t), PC());
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, timespec const * t)
{
  return cond_wait(c, m, ts_ns(t), PC());
}
int pthread_cond_signal(pthread_cond_t* c)
{
  if (!IN_EXEC()) return 0;
  sched(K_CSIGNAL, (uintptr_t) c, true, PC());
  cond_touch(c, PC());
  unsigned n;
  {
    Host h;
    n = unsigned((*E->conds)[(uintptr_t) c].waiters.size());
  }
  if (n)
  {
    unsigned k = data_choice(3, n, (u64) c);
    Host h;
    auto& w = (*E->conds)[(uintptr_t) c].waiters;
    E->f[w[k]].signaled = true;
    w.erase(w.begin() + k);
  }
  release_bump(cur());
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
  if (!IN_EXEC()) return 0;
  sched(K_CSIGNAL, (uintptr_t) c, true, PC());
  cond_touch(c, PC());
  Host h;
  auto& w = (*E->conds)[(uintptr_t) c].waiters;
  for (int t : w) E->f[t].signaled = true;
  w.clear();
  release_bump(cur());
  return 0;
}

int pthread_once(pthread_once_t* o, void (*fn)(void))
{
  if (!IN_EXEC())
  {
    if (*(int*) o == 0) { *(int*) o = 2; fn(); }
    return 0;
  }
  Fiber& f = cur();
  sched(K_ONCE, (uintptr_t) o, true, PC());
  bool run;
  {
    Host h;
    auto it = E->guards->find((uintptr_t) o);
    if (it == E->guards->end()) { GuardSt g; g.vc.clear(); it = E->guards->emplace((uintptr_t) o, g).first; if (*(int*) o == 2) g.state = it->second.state = 2; }
    GuardSt& g = it->second;
    run = g.state == 0;
    if (run) { g.state = 1; g.owner = f.id; }
    else { f.vc.join(g.vc); f.vis.join(g.vc); }
  }
  if (run)
  {
    try { fn(); }
    catch (...)
    {
      sched(K_POINT, (uintptr_t) o, true, PC());
      { Host h; (*E->guards)[(uintptr_t) o].state = 0; }
      throw;
    }
    sched(K_POINT, (uintptr_t) o, true, PC());
    Host h;
    GuardSt& g = (*E->guards)[(uintptr_t) o];
    g.state = 2;
    g.vc = f.vc;
    *(int*) o = 2;
    release_bump(f);
  }
  return 0;
}

int __cxa_guard_acquire(u64* g)
{
  if (!IN_EXEC())
  {
    if (*(u8*) g) return 0;
    return 1;
  }
  if (*(u8*) g && E->guards->find((uintptr_t) g) == E->guards->end()) return 0;
  Fiber& f = cur();
  sched(K_GUARD, (uintptr_t) g | 2, true, PC());
  Host h;
  auto it = E->guards->find((uintptr_t) g | 2);
  if (it == E->guards->end()) { GuardSt s; s.vc.clear(); it = E->guards->emplace((uintptr_t) g | 2, s).first; }
  GuardSt& s = it->second;
  if (s.state == 2) { f.vc.join(s.vc); f.vis.join(s.vc); return 0; }
  s.state = 1;
  s.owner = f.id;
  f.guardDepth++;
  return 1;
}
void __cxa_guard_release(u64* g)
{
  if (!IN_EXEC()) { *(u8*) g = 1; return; }
  Fiber& f = cur();
  sched(K_POINT, (uintptr_t) g | 2, true, PC());
  AtomicLoc* l = get_loc((uintptr_t) g, 1);
  Host h;
  GuardSt& s = (*E->guards)[(uintptr_t) g | 2];
  s.state = 2;
  s.vc = f.vc;
  f.guardDepth--;
  push_store(f, l, 1, __ATOMIC_RELEASE, false);
  *(u8*) g = 1;
  ObjInfo& oi = (*E->objs)[key((uintptr_t) g)];
  ++oi.version;
  release_bump(f);
}
void __cxa_guard_abort(u64* g)
{
  if (!IN_EXEC()) return;
  Fiber& f = cur();
  sched(K_POINT, (uintptr_t) g | 2, true, PC());
  Host h;
  (*E->guards)[(uintptr_t) g | 2].state = 0;
  f.guardDepth--;
}
}

// ------------------------------------------------------------------------------------------------
// threads
static void fiber_exit(Fiber& f);

extern "C" void mc_fiber_main()
{
  Fiber& f = cur();
  f.vc.c[f.id]++;
  f.vis.c[f.id] = f.vc.c[f.id];
  E->inExec = true;
  record_step(f);
  try
  {
    f.ret = f.start(f.arg);
  }
  catch (...)
  {
    violation("terminate", "uncaught exception leaves thread T%d", f.id);
  }
  fiber_exit(f);
}

asm(R"(
.text
.globl mc_fiber_entry
.type mc_fiber_entry,@function
mc_fiber_entry:
  .cfi_startproc
  .cfi_undefined rip
  pushq $0
  xorl %ebp, %ebp
  call mc_fiber_main
  ud2
  .cfi_endproc
.size mc_fiber_entry,.-mc_fiber_entry
)");
extern "C" void mc_fiber_entry();

static int new_fiber(void* (*start)(void*), void* arg)
{
  int id = E->nf;
  if (id >= MAXT) internal_error("too many threads");
  E->nf++;
  Fiber& f = E->f[id];
  f.id = id;
  f.used = true;
  f.finished = f.detached = f.joined = false;
  f.start = start;
  f.arg = arg;
  f.pend = Pending{K_START, false, false, 0, 0, nullptr};
  f.block = B_NONE;
  f.signaled = f.timedout = f.yielding = false;
  f.deadline = -1;
  f.vc.clear(); f.vis.clear(); f.acqF.clear(); f.relF.clear();
  f.hasRelF = false;
  raw_set(f.dvc, 0, sizeof f.dvc);
  f.nsteps = 0;
  f.fp = 0;
  f.spinAddr = 0; f.spinCnt = 0; f.spinRelease = 0; f.forceFresh = false;
  f.readset->clear();
  f.dtors->clear();
  f.heapUsed = 0;
  f.guardDepth = 0;
  f.xalloc = 0;
  f.vc.c[id] = 1;
  raw_copy(f.tls, E->tlsImg, E->tlsN);
  raw_copy(f.tls2, E->tls2Img, E->tls2N);
  uintptr_t top = (uintptr_t) STACK_BASE + STACK_SIZE * (id + 1);
  f.stackMin = top;
  top -= 64;
  u64* sp = (u64*) top;
  *--sp = 0;
  *--sp = (u64) mc_fiber_entry;
  for (int i = 0; i < 6; ++i) *--sp = 0;
  f.sp = sp;
  return id;
}

static void fiber_exit(Fiber& f)
{
  // thread_local destructors
  while (!f.dtors->empty())
  {
    TlsDtor d;
    {
      Host h;
      d = f.dtors->back();
      f.dtors->pop_back();
    }
    d.fn(d.obj);
  }
  sched(K_EXIT, 0, false, nullptr);
  f.vc.c[f.id]++;
  f.finished = true;
  f.pend.kind = K_EXIT;
  int t;
  {
    Host h;
    // wake joiners happens through enabled()
    t = pick_next(f.id, false);
  }
  if (t == -2) finish_exec(3);
  if (t < 0) finish_exec(1);
  switch_to(t);
  __builtin_unreachable();
}

extern "C" {
int pthread_create(pthread_t* th, pthread_attr_t const *, void* (*fn)(void*), void* arg)
{
  if (!IN_EXEC()) internal_error("thread created outside an execution");
  Fiber& f = cur();
  sched(K_CREATE, 0, false, PC());
  int id;
  {
    Host h;
    id = new_fiber(fn, arg);
    Fiber& c = E->f[id];
    c.vc.join(f.vc);
    c.vis.join(f.vis);
    c.vc.c[id] = 1;
    for (int t = 0; t < MAXT; ++t) c.dvc[t] = f.dvc[t];
    c.fp = mix(f.fp, 77);
    release_bump(f);
  }
  *th = (pthread_t) (0x1000 + id);
  return 0;
}
int pthread_join(pthread_t th, void** ret)
{
  if (!IN_EXEC()) internal_error("join outside an execution");
  Fiber& f = cur();
  int id = int((u64) th - 0x1000);
  if (id < 0 || id >= E->nf) internal_error("join: bad thread");
  if (id == f.id) violation("deadlock", "thread T%d joins itself", id);
  if (E->f[id].joined || E->f[id].detached) violation("bad-join", "thread T%d joined twice or detached", id);
  f.joinTarget = id;
  sched(K_JOIN, 0, false, PC());
  Fiber& c = E->f[id];
  c.joined = true;
  f.vc.join(c.vc);
  f.vis.join(c.vc);
  for (int t = 0; t < MAXT; ++t) f.dvc[t] = std::max(f.dvc[t], c.dvc[t]);
  f.fp = mix(f.fp, c.fp);
  if (ret) *ret = c.ret;
  note_progress(f);
  return 0;
}
int pthread_detach(pthread_t th)
{
  if (!IN_EXEC()) return 0;
  int id = int((u64) th - 0x1000);
  E->f[id].detached = true;
  return 0;
}
pthread_t pthread_self()
{
  if (!E || !E->inExec)
  {
    static pthread_t (*real)() = nullptr;
    if (!real) real = (pthread_t (*)()) dlsym(RTLD_NEXT, "pthread_self");
    return real();
  }
  return (pthread_t) (0x1000 + E->cur);
}
int pthread_setname_np(pthread_t, char const *) { return 0; }
int pthread_setaffinity_np(pthread_t, size_t, cpu_set_t const *) { return 0; }
int sched_setaffinity(pid_t, size_t, cpu_set_t const *) { return 0; }
int sched_getcpu() { return 0; }

static void do_yield(void* pc)
{
  Fiber& f = cur();
  if (!f.readset->empty())
  {
    f.block = B_SPIN;
    f.forceFresh = true;
  }
  f.spinCnt = 0;
  f.spinAddr = 0;
  f.yielding = true;
  sched(K_YIELD, 0, false, pc);
}
int sched_yield()
{
  if (IN_EXEC()) do_yield(PC());
  return 0;
}
static void do_sleep_until(long d, void* pc)
{
  Fiber& f = cur();
  if (d <= E->now) { do_yield(pc); return; }
  f.deadline = d;
  f.block = B_SLEEP;
  f.yielding = true;
  sched(K_SLEEP, 0, false, pc);
  f.block = B_NONE;
  if (E->now < f.deadline) E->now = f.deadline;
  f.deadline = -1;
  note_progress(f);
}
int nanosleep(timespec const * t, timespec*)
{
  if (IN_EXEC()) do_sleep_until(E->now + ts_ns(t), PC());
  return 0;
}
int clock_nanosleep(clockid_t, int flags, timespec const * t, timespec*)
{
  if (IN_EXEC()) do_sleep_until((flags & TIMER_ABSTIME) ? ts_ns(t) : E->now + ts_ns(t), PC());
  return 0;
}
int usleep(useconds_t u)
{
  if (IN_EXEC()) do_sleep_until(E->now + long(u) * 1000, PC());
  return 0;
}
int clock_gettime(clockid_t id, timespec* t)
{
  if (!E || !E->inExec)
  {
    static int (*real)(clockid_t, timespec*) = nullptr;
    if (!real) real = (int (*)(clockid_t, timespec*)) dlsym(RTLD_NEXT, "clock_gettime");
    return real(id, t);
  }
  t->tv_sec  = E->now / 1000000000l;
  t->tv_nsec = E->now % 1000000000l;
  return 0;
}
int get_nprocs() { return E && E->inExec ? E->ncpu : 8; }

int __cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso)
{
  if (!E || !E->inExec) return 0;
  Host h;
  cur().dtors->push_back({fn, obj});
  (void) dso;
  return 0;
}
int __cxa_atexit(void (*fn)(void*), void* obj, void* dso)
{
  // static destructors never run: the process leaves through _exit
  (void) fn; (void) obj; (void) dso;
  return 0;
}

void* __cxa_allocate_exception(size_t n) noexcept
{
  static void* (*real)(size_t) = nullptr;
  if (!real) real = (void* (*) (size_t)) dlsym(RTLD_NEXT, "__cxa_allocate_exception");
  if (!E || !E->inExec) return real(n);
  cur().xalloc++;
  void* p = real(n);
  cur().xalloc--;
  return p;
}

void __assert_fail(char const * expr, char const * file, unsigned line, char const * fn) noexcept
{
  if (E && E->inExec) violation("assertion", "%s at %s:%u in %s", expr, file, line, fn);
  dprintf(2, "assert %s %s:%u\n", expr, file, line);
  _exit(3);
}
void abort() noexcept
{
  if (E && E->inExec) violation("abort", "abort() called by T%d pc=%p", E->cur, PC());
  dprintf(2, "abort outside execution\n");
  _exit(3);
}
}

static void on_terminate()
{
  if (E && E->inExec)
  {
    char const * what = "";
    std::exception_ptr ep = std::current_exception();
    if (ep)
    {
      if (auto* t = abi::__cxa_current_exception_type()) what = t->name();
    }
    violation("terminate", "std::terminate called in T%d (exception type %s)", E->cur, what);
  }
  _exit(3);
}

static void on_signal(int sig, siginfo_t* si, void*)
{
  if (E && E->inExec) violation("crash", "signal %d in T%d accessing %p", sig, E->cur, si->si_addr);
  char b[64];
  int n = snprintf(b, sizeof b, "MC-INTERNAL-ERROR: signal %d outside an execution\n", sig);
  if (write(2, b, n)) {}
  _exit(3);
}

// ------------------------------------------------------------------------------------------------
// mc:: API
namespace mc
{
  unsigned choose(unsigned n, char const * what) noexcept
  {
    if (!IN_EXEC()) return 0;
    unsigned c = data_choice(0, n, 0xC0);
    cur().fp = mix(cur().fp, 1000 + c);
    if (E->tracing && n > 1) note("choose(%s, %u) = %u", what, n, c);
    return c;
  }
  void fail(char const * fmt, ...) noexcept
  {
    va_list ap;
    va_start(ap, fmt);
    vviol("check", fmt, ap);
    va_end(ap);
    finish_exec(2);
  }
  void discard() noexcept { finish_exec(4); }
  void outcome(char const * fmt, ...) noexcept
  {
    va_list ap;
    va_start(ap, fmt);
    size_t room = sizeof E->outc - E->outcN;
    if (room > 1)
    {
      int n = vsnprintf(E->outc + E->outcN, room, fmt, ap);
      E->outcN += std::min(size_t(n), room - 1);
    }
    va_end(ap);
  }
  void note(char const * fmt, ...) noexcept
  {
    if (!E->tracing) return;
    char b[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    Host h;
    char c[640];
    snprintf(c, sizeof c, "%zu T%d note: %s", E->steps->size(), E->cur, b);
    E->traceNotes->push_back(c);
  }
  int log(long v) noexcept
  {
    Host h;
    E->log->push_back(v);
    return int(E->log->size() - 1);
  }
  int   log_size() noexcept { return int(E->log->size()); }
  long  log_at(int i) noexcept { return (*E->log)[i]; }
  long& ctr(int i) noexcept { return E->ctr[i]; }
  int   self() noexcept { return E->cur; }
  long  live_allocs() noexcept { return E->liveAllocs; }
  long  total_allocs() noexcept { return long(E->allocs->size()); }
  bool  is_dead(void const * p) noexcept
  {
    return in_arena((void*) p) && E->heapSh[(char*) p - HEAP_BASE].W == W_DEAD;
  }
  long fail_alloc(long k) noexcept { long o = E->failAlloc; E->failAlloc = k; return o; }
  void join_all() noexcept
  {
    Fiber& f = cur();
    f.joinTarget = -1;
    sched(K_JOIN, 0, false, PC());
    for (int i = 0; i < E->nf; ++i)
    {
      Fiber& c = E->f[i];
      if (!c.used || i == f.id) continue;
      f.vc.join(c.vc);
      f.vis.join(c.vc);
      for (int t = 0; t < MAXT; ++t) f.dvc[t] = std::max(f.dvc[t], c.dvc[t]);
      f.fp = mix(f.fp, c.fp);
    }
    note_progress(f);
  }
  void point(void const * o) noexcept { sched(K_POINT, key((uintptr_t) o) | 4, true, PC()); }
  long now() noexcept { return E->now; }
  int  depth() noexcept { return E->opt.depth; }
  void set_ncpu(int n) noexcept { E->ncpu = n; }
  void allow_daemons() noexcept { E->daemons = true; }
  void ignore_leaks() noexcept { E->noleaks = true; }
  bool exploring() noexcept { return E && E->inExec; }

  static std::vector<scenario>& registry()
  {
    static std::vector<scenario> r;
    return r;
  }
  registrar::registrar(char const * p, char const * n, body_t b, options q) { registry().push_back({p, n, b, q, q, false}); }
  registrar::registrar(char const * p, char const * n, body_t b, options q, options t)
  {
    registry().push_back({p, n, b, q, t, true});
  }
}  // namespace mc

// ------------------------------------------------------------------------------------------------
// host: run one execution
static mc::body_t g_body;

static void* main_body(void*)
{
  g_body();
  return nullptr;
}

static void setup_memory()
{
  void* h = mmap(HEAP_BASE, HEAP_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void* s = mmap(STACK_BASE, STACK_SIZE * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (h != HEAP_BASE || s != STACK_BASE) { dprintf(2, "MC-INTERNAL-ERROR: mmap\n"); _exit(3); }
  E->heapSh  = (Cell*) mmap(nullptr, HEAP_SIZE * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  E->stackSh = (Cell*) mmap(nullptr, STACK_SIZE * MAXT * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  E->dataLo = &__data_start;
  E->dataHi = &_end;
  E->dataSh = (Cell*) mmap(nullptr, (E->dataHi - E->dataLo + 64) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (E->heapSh == MAP_FAILED || E->stackSh == MAP_FAILED || E->dataSh == MAP_FAILED) { dprintf(2, "MC-INTERNAL-ERROR: mmap shadow\n"); _exit(3); }
}

struct TlsInfo { char* exeLo; size_t exeN; char* cxxLo; size_t cxxN; bool first; };
static int phdr_cb(dl_phdr_info* i, size_t, void* d)
{
  TlsInfo* t = (TlsInfo*) d;
  size_t n = 0;
  for (int k = 0; k < i->dlpi_phnum; ++k)
    if (i->dlpi_phdr[k].p_type == PT_TLS) n = i->dlpi_phdr[k].p_memsz;
  if (t->first)
  {
    t->first = false;
    if (n) { t->exeLo = (char*) i->dlpi_tls_data; t->exeN = n; }
  }
  else if (strstr(i->dlpi_name, "libstdc++") && n) { t->cxxLo = (char*) i->dlpi_tls_data; t->cxxN = n; }
  return 0;
}

static void take_snapshot()
{
  E->snapDataN = &_edata - &__data_start;
  E->snapBssN  = &_end - &__bss_start;
  E->snapData = (char*) __libc_malloc(E->snapDataN + 1);
  E->snapBss  = (char*) __libc_malloc(E->snapBssN + 1);
  TlsInfo t{nullptr, 0, nullptr, 0, true};
  dl_iterate_phdr(phdr_cb, &t);
  E->tlsLo = t.exeLo; E->tlsN = t.exeN; E->tls2Lo = t.cxxLo; E->tls2N = t.cxxN;
  E->tlsImg  = (char*) __libc_malloc(E->tlsN + 1);
  E->tls2Img = (char*) __libc_malloc(E->tls2N + 1);
  raw_copy(E->tlsImg, E->tlsLo, E->tlsN);
  raw_copy(E->tls2Img, E->tls2Lo, E->tls2N);
  for (int i = 0; i < MAXT; ++i)
  {
    E->f[i].tls  = (char*) __libc_malloc(E->tlsN + 1);
    E->f[i].tls2 = (char*) __libc_malloc(E->tls2N + 1);
    E->f[i].dtors = new std::vector<TlsDtor>();
    E->f[i].readset = new std::vector<Fiber::RS>();
    E->f[i].readset->reserve(40);
  }
  raw_copy(E->snapData, &__data_start, E->snapDataN);
  raw_copy(E->snapBss, &__bss_start, E->snapBssN);
}

static void reset_exec()
{
  // wipe shadow of what the previous execution used
  for (int t = 0; t < MAXT; ++t)
  {
    Fiber& f = E->f[t];
    size_t hu = f.heapUsed ? f.heapUsed + 4096 : 0;
    if (hu > HEAP_PER_T) hu = HEAP_PER_T;
    if (hu) raw_set((void*) (E->heapSh + HEAP_PER_T * t), 0xFF, hu * sizeof(Cell));
    f.heapUsed = 0;
    uintptr_t top = (uintptr_t) STACK_BASE + STACK_SIZE * (t + 1);
    if (f.stackMin && f.stackMin < top)
      raw_set((void*) (E->stackSh + (f.stackMin - (uintptr_t) STACK_BASE)), 0, (top - f.stackMin) * sizeof(Cell));
    f.stackMin = top;
    f.used = false;
    f.finished = false;
  }
  raw_set((void*) E->dataSh, 0, (E->dataHi - E->dataLo) * sizeof(Cell));
  raw_copy(&__data_start, E->snapData, E->snapDataN);
  raw_copy(&__bss_start, E->snapBss, E->snapBssN);
  raw_copy(E->tlsLo, E->tlsImg, E->tlsN);
  raw_copy(E->tls2Lo, E->tls2Img, E->tls2N);
  E->shared->clear();
  E->shared->push_back(VC{});
  E->allocs->clear();
  E->allocIdx->clear();
  E->liveAllocs = 0;
  E->failAlloc = 0;
  E->atomics->clear();
  E->atomicPoolUsed = 0;
  E->mutexes->clear();
  E->conds->clear();
  E->awaiters->clear();
  E->guards->clear();
  E->objs->clear();
  E->tsanMu->clear();
  E->scF.clear();
  E->scW.clear();
  E->now = 1000000000000l;
  mc_rnd = 0;
  E->ncpu = 2;
  E->daemons = E->noleaks = false;
  E->steps->clear();
  E->npos = 0;
  E->lastSched = -1;
  E->preempts = E->stale = E->spur = E->early = 0;
  E->livelock = 0;
  E->result = 0;
  E->msg[0] = 0;
  E->outc[0] = 0;
  E->outcN = 0;
  E->log->clear();
  raw_set(E->ctr, 0, sizeof E->ctr);
  E->traceNotes->clear();
  E->violKind = "";
  E->nf = 0;
}

static void run_exec()
{
  reset_exec();
  int id = new_fiber(main_body, nullptr);
  E->cur = id;
  tls_in(E->f[id]);
  E->nprefix = E->nodes->size();
  // the main fiber starts immediately (its start is not a choice)
  mc_ctx_switch(&E->hostSp, E->f[id].sp);
  E->inExec = false;
  // leave TLS as in the image for host code
  raw_copy(E->tlsLo, E->tlsImg, E->tlsN);
  raw_copy(E->tls2Lo, E->tls2Img, E->tls2N);
  if (E->result == 1 && E->opt.leaks && !E->noleaks && !E->daemons && E->liveAllocs > 0)
  {
    E->result = 2;
    E->violKind = "leak";
    std::string s;
    for (auto& r : *E->allocs)
      if (r.live && !r.immortal)
      {
        char b[128];
        snprintf(b, sizeof b, " #%d:%zu bytes by T%d pc=%p", int(&r - E->allocs->data()), r.n, r.tid, r.pc);
        s += b;
        if (s.size() > 1000) break;
      }
    snprintf(E->msg, sizeof E->msg, "[leak] %ld allocation(s) never freed:%s", E->liveAllocs, s.c_str());
  }
  if (E->steps->size() > E->maxSteps) E->maxSteps = E->steps->size();
}

// prepare the next prefix; false when exhausted
static bool next_prefix()
{
  auto& ns = *E->nodes;
  while (!ns.empty())
  {
    Node& d = ns.back();
    if (d.type == 1)
    {
      bool can = d.chosen + 1 < d.n;
      if (can)
      {
        d.chosen++;
        return true;
      }
    }
    else
    {
      d.done |= 1u << d.chosen;
      u16 c = d.backtrack & d.enabled & ~d.done & ~d.sleep;
      for (int t = 0; t < MAXT; ++t)
      {
        if (!(c >> t & 1)) continue;
        int cost = (d.curEnabled && !d.curYield && t != d.cur) ? 1 : 0;
        if (E->bound >= 0 && d.preempts + cost > E->bound) continue;
        if ((d.timers >> t & 1) && d.early >= E->opt.early_timer) continue;
        d.chosen = t;
        return true;
      }
    }
    ns.pop_back();
  }
  return false;
}

static std::string json_escape(std::string const & s)
{
  std::string o;
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

static std::string choices_string()
{
  std::string s;
  for (auto& n : *E->nodes)
  {
    char b[32];
    snprintf(b, sizeof b, "%s%c%d", s.empty() ? "" : " ", n.type ? 'd' : 's', n.chosen);
    s += b;
  }
  return s;
}

static double wall()
{
  timeval tv;
  gettimeofday(&tv, nullptr);
  return tv.tv_sec + tv.tv_usec * 1e-6;
}

static u64 trace_hash()
{
  u64 h = 0;
  for (auto& s : *E->steps) h = mix(mix(h, s.tid * 64 + s.p.kind), s.p.o1 + s.val * 31);
  h = mix(h, E->result);
  for (char* p = E->outc; *p; ++p) h = mix(h, *p);
  return h;
}

static void symbolize(std::vector<void*> const & pcs, std::map<void*, std::string>& out, char const * exe)
{
  // addr2line in one batch; load address from /proc/self/maps is avoided by using dladdr
  Dl_info di;
  if (!dladdr((void*) &symbolize, &di)) return;
  char* base = (char*) di.dli_fbase;
  std::string cmd = std::string("addr2line -Cife ") + exe;
  std::vector<void*> v;
  for (void* p : pcs)
  {
    char b[32];
    snprintf(b, sizeof b, " %#lx", (unsigned long) ((char*) p - base - 1));
    cmd += b;
    v.push_back(p);
    if (v.size() > 400) break;
  }
  for (size_t i = 0; i < v.size(); ++i)
  {
    char c[512];
    snprintf(c, sizeof c, "addr2line -Ce %s %#lx 2>/dev/null", exe, (unsigned long) ((char*) v[i] - base - 1));
    FILE* f = popen(c, "r");
    if (!f) return;
    char line[1024];
    if (fgets(line, sizeof line, f))
    {
      line[strcspn(line, "\n")] = 0;
      char* sl = line;
      // keep the last two path components
      int n = 0;
      for (char* q = line + strlen(line); q > line; --q)
        if (*q == '/' && ++n == 3) { sl = q + 1; break; }
      out[v[i]] = sl;
    }
    pclose(f);
  }
}

static void print_trace(FILE* o, char const * exe)
{
  std::map<void*, std::string> sym;
  std::vector<void*> pcs;
  for (auto& s : *E->steps)
    if (s.p.pc && !sym.count(s.p.pc)) { sym[s.p.pc] = ""; pcs.push_back(s.p.pc); }
  symbolize(pcs, sym, exe);
  size_t nn = 0;
  auto notes = [&](size_t upto)
  {
    while (nn < E->traceNotes->size() && strtoul((*E->traceNotes)[nn].c_str(), nullptr, 10) <= upto)
      fprintf(o, "      %s\n", (*E->traceNotes)[nn++].c_str());
  };
  for (size_t i = 0; i < E->steps->size(); ++i)
  {
    notes(i);
    Step& s = (*E->steps)[i];
    fprintf(o, "%5zu T%d %-13s obj=%lx val=%lx  %s\n", i, s.tid, kind_name[s.p.kind], (unsigned long) s.p.o1, (unsigned long) s.val,
            sym[s.p.pc].c_str());
  }
  notes(~0ul);
  for (int t = 0; t < E->nf; ++t)
    if (E->f[t].used && !E->f[t].finished)
    {
      std::map<void*, std::string> y;
      symbolize({E->f[t].pend.pc}, y, exe);
      fprintf(o, "  end: T%d pending %s %s\n", t, kind_name[E->f[t].pend.kind], y[E->f[t].pend.pc].c_str());
    }
  // symbolise pcs mentioned in the message
  char const * p = E->msg;
  while ((p = strstr(p, "pc=0x")))
  {
    void* pc = (void*) strtoul(p + 3, nullptr, 16);
    std::map<void*, std::string> y;
    symbolize({pc}, y, exe);
    fprintf(o, "  %p = %s\n", pc, y[pc].c_str());
    p += 5;
  }
}

int main(int argc, char** argv)
{
  E = (Engine*) __libc_calloc(1, sizeof(Engine));
  std::string mode = argc > 1 ? argv[1] : "--list";
  std::string name, tier = "quick", out, replay;
  double maxtime = 0;
  for (int i = 2; i < argc; ++i)
  {
    std::string a = argv[i];
    if (a == "--tier") tier = argv[++i];
    else if (a == "--out") out = argv[++i];
    else if (a == "--replay") replay = argv[++i];
    else if (a == "--max-time") maxtime = atof(argv[++i]);
    else name = a;
  }
  if (mode == "--list")
  {
    for (auto& s : mc::registry()) printf("%s %s\n", s.property, s.name);
    fflush(stdout);
    _exit(0);
  }
  mc::scenario* sc = nullptr;
  for (auto& s : mc::registry())
    if (name == s.name) sc = &s;
  if (!sc) { dprintf(2, "no such scenario %s\n", name.c_str()); _exit(3); }
  setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
  printf("%s", "");
  // warm up lazily initialised runtime pieces
  try { throw 1; } catch (int) {}
  { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); pthread_self(); }
  { void* e = __cxxabiv1::__cxa_allocate_exception(8); (void) e; }
  E->opt = tier == "thorough" && sc->has_thorough ? sc->thorough : sc->quick;
  E->shared = new std::vector<VC>();
  E->allocs = new std::vector<AllocRec>();
  E->allocIdx = new std::unordered_map<char*, int>();
  E->atomics = new std::unordered_map<uintptr_t, AtomicLoc*>();
  E->atomicPool = new std::vector<AtomicLoc*>();
  E->mutexes = new std::unordered_map<uintptr_t, MutexSt>();
  E->conds = new std::unordered_map<uintptr_t, CondSt>();
  E->awaiters = new std::unordered_map<uintptr_t, std::vector<int>>();
  E->guards = new std::unordered_map<uintptr_t, GuardSt>();
  E->objs = new std::unordered_map<uintptr_t, ObjInfo>();
  E->tsanMu = new std::unordered_map<uintptr_t, VC>();
  E->nodes = new std::vector<Node>();
  E->steps = new std::vector<Step>();
  E->log = new std::vector<long>();
  E->traceNotes = new std::vector<std::string>();
  E->states = new std::unordered_set<u64>();
  E->outcomes = new std::map<std::string, u64>();
  setup_memory();
  raw_set((void*) E->heapSh, 0xFF, 0);
  std::set_terminate(on_terminate);
  __libc_single_threaded = 0;  // libstdc++ must use real atomics for shared_ptr counts
  struct sigaction sa;
  raw_set(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  stack_t ss;
  ss.ss_size = 1 << 16;
  ss.ss_sp = __libc_malloc(ss.ss_size);
  ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
  g_body = sc->body;
  take_snapshot();
  // mark the whole per-thread arenas as unallocated lazily: first MB eagerly
  for (int t = 0; t < MAXT; ++t) E->f[t].heapUsed = 0;
  for (int t = 0; t < MAXT; ++t) raw_set((void*) (E->heapSh + HEAP_PER_T * t), 0xFF, (1u << 20) * sizeof(Cell) / 4);

  if (mode == "--replay")
  {
    // replay file: third line holds the choices
    FILE* rf = fopen(replay.c_str(), "r");
    if (!rf) { dprintf(2, "cannot open %s\n", replay.c_str()); _exit(3); }
    char* line = nullptr;
    size_t cap = 0;
    std::string ch;
    int bound = 2;
    while (getline(&line, &cap, rf) > 0)
    {
      if (!strncmp(line, "choices:", 8)) ch = line + 8;
      if (!strncmp(line, "bound:", 6)) bound = atoi(line + 6);
    }
    fclose(rf);
    E->bound = bound;
    std::vector<std::pair<int, int>> cs;
    for (char* p = strtok(&ch[0], " \n"); p; p = strtok(nullptr, " \n")) cs.push_back({p[0] == 'd', atoi(p + 1)});
    E->tracing = true;
    // replay by growing the prefix: signatures are recomputed on the fly
    E->nodes->clear();
    size_t k = 0;
    for (;;)
    {
      run_exec();
      if (k >= cs.size() || k >= E->nodes->size()) break;
      // force choice k, drop everything after it
      while (k < cs.size() && k < E->nodes->size() && (*E->nodes)[k].chosen == cs[k].second) ++k;
      if (k >= cs.size() || k >= E->nodes->size()) break;
      (*E->nodes)[k].chosen = cs[k].second;
      E->nodes->resize(k + 1);
      ++k;
    }
    run_exec();
    print_trace(stdout, argv[0]);
    printf("%s\n", E->result == 2 ? E->msg : "no violation");
    fflush(stdout);
    _exit(E->result == 2 ? 1 : 0);
  }

  double t0 = wall();
  int first = (E->opt.preempt < 0 || !E->opt.iterate) ? E->opt.preempt : 0;
  int completed = -2;
  bool capped = false, viol = false;
  u64 lastBoundExecs = 0;
  std::string bounds;
  for (int b = first; b <= E->opt.preempt && !viol && !capped; ++b)
  {
    E->bound = b;
    E->nodes->clear();
    lastBoundExecs = 0;
    u64 prunedBefore = E->prunedExecs;
    for (;;)
    {
      run_exec();
      ++E->execs;
      ++lastBoundExecs;
      if (E->execs == 1)
      {
        u64 h = trace_hash();
        run_exec();
        if (trace_hash() != h) internal_error("nondeterminism: the same schedule gave two different traces (%s)", sc->name);
      }
      if (E->result == 2) { viol = true; break; }
      if (E->result == 3) ++E->prunedExecs;
      else if (E->result == 4) ++E->discarded;
      else if (E->result == 1) ++(*E->outcomes)[E->outc];
      else internal_error("execution ended with result %d", E->result);
      if (getenv("MC_DUMP"))
      {
        printf("%d:", E->result);
        for (auto& st : *E->steps)
        {
          Node* n = st.node >= 0 ? &(*E->nodes)[st.node] : nullptr;
          printf(" T%d.%s[%lx]{en%x sl%x bt%x}", st.tid, kind_name[st.p.kind], (unsigned long) st.p.o1 & 0xfff, n ? n->enabled : 0, n ? n->sleep : 0, n ? n->backtrack : 0);
        }
        printf(" => %s\n", E->outc);
      }
      if (!next_prefix()) break;
      if (E->opt.max_exec && E->execs >= E->opt.max_exec) { capped = true; break; }
      if (maxtime > 0 && (E->execs & 63) == 0 && wall() - t0 > maxtime) { capped = true; break; }
    }
    (void) prunedBefore;
    if (!viol && !capped) completed = b;
    char bb[64];
    snprintf(bb, sizeof bb, "%s{\"preemptions\":%d,\"executions\":%lu,\"complete\":%s}", bounds.empty() ? "" : ",", b, (unsigned long) lastBoundExecs,
             viol || capped ? "false" : "true");
    bounds += bb;
    if (b < 0) break;
  }
  std::string msg = E->msg, choices = choices_string();
  bool confirmed = true;
  if (viol)
  {
    // replay twice: the same schedule must fail in the same way every time
    for (int i = 0; i < 2; ++i)
    {
      run_exec();
      if (E->result != 2 || msg != E->msg) confirmed = false;
    }
    if (!confirmed) internal_error("violation is not reproducible: %s", msg.c_str());
    if (!out.empty())
    {
      std::string rp = out + ".replay";
      FILE* o = fopen(rp.c_str(), "w");
      if (o)
      {
        fprintf(o, "property: %s\nscenario: %s\nviolation: %s\nbound: %d\ntier: %s\nchoices: %s\n", sc->property, sc->name, msg.c_str(), E->bound,
                tier.c_str(), choices.c_str());
        E->tracing = true;
        run_exec();
        E->tracing = false;
        fprintf(o, "trace:\n");
        print_trace(o, argv[0]);
        fclose(o);
      }
    }
  }
  double dt = wall() - t0;
  std::string js = "{";
  char b[1024];
  snprintf(b, sizeof b,
           "\"property\":\"%s\",\"scenario\":\"%s\",\"violation\":%s,\"executions\":%lu,\"pruned\":%lu,\"discarded\":%lu,\"transitions\":%lu,"
           "\"states\":%zu,\"states_overflow\":%lu,\"max_steps\":%lu,\"preemption_bound\":%d,\"completed_bound\":%d,\"capped\":%s,\"stale\":%d,\"spurious\":%d,"
           "\"early_timer\":%d,\"dpor\":%s,\"wall_s\":%.3f,\"distinct_outcomes\":%zu,",
           sc->property, sc->name, viol ? "true" : "false", (unsigned long) E->execs, (unsigned long) E->prunedExecs, (unsigned long) E->discarded,
           (unsigned long) E->transitions, E->states->size(), (unsigned long) E->statesOverflow, (unsigned long) E->maxSteps, E->opt.preempt, completed,
           capped ? "true" : "false", E->opt.stale, E->opt.spurious, E->opt.early_timer, E->opt.dpor ? "true" : "false", dt, E->outcomes->size());
  js += b;
  js += "\"bounds\":[" + bounds + "],\"message\":\"" + json_escape(viol ? msg : "") + "\",\"outcomes\":[";
  int k = 0, max_out = getenv("MC_MAX_OUTCOMES") ? atoi(getenv("MC_MAX_OUTCOMES")) : 12;
  for (auto& o : *E->outcomes)
  {
    if (k++ == max_out) break;
    snprintf(b, sizeof b, "%s{\"n\":%lu,\"o\":\"", k > 1 ? "," : "", (unsigned long) o.second);
    js += b;
    js += json_escape(o.first.substr(0, 400)) + "\"}";
  }
  js += "]}\n";
  if (!out.empty())
  {
    FILE* o = fopen(out.c_str(), "w");
    if (o) { fputs(js.c_str(), o); fclose(o); }
  }
  else fputs(js.c_str(), stdout);
  fflush(stdout);
  _exit(viol ? 1 : 0);
}
