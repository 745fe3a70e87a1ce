// A small model of the kernel side of io_uring, in place of the system calls of <exec/linux/io_uring_context.hpp>.
// The context runs unmodified on rings in ordinary memory.  Which requests are completed, when and in which order is
// chosen exhaustively, within what io_uring allows:
//   - io_uring_enter consumes the submission queue in order, returns early when it consumed fewer entries than asked for,
//     and otherwise waits until at least min_complete completions are in the queue
//   - READ of an eventfd completes once the counter is not 0, and clears it
//   - TIMEOUT completes with -ETIME not before its (relative) time has passed
//   - ASYNC_CANCEL completes the request it names with -ECANCELED and itself with 0, or itself with -ENOENT when the
//     request is not (or no longer) pending; in any order
//   - completions appear in the queue at any time: while the context waits, or when another thread writes to the eventfd
//   - a wait can be interrupted by a signal (once per execution, only if uring::interrupts is set)
//   - a call may accept only some of the submissions it is given, at least one, and then does not wait
//     (as often as uring::shorts says; the kernel does so when it runs out of memory for requests)
// selftest/uring_conformance.cpp runs the same request sequences against the real kernel.
#pragma once
#include "common.hpp"
#include <condition_variable>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <vector>
#include <exec/scope.hpp>
#include <exec/timed_scheduler.hpp>
#include <exec/detail/atomic_intrusive_queue.hpp>
#include <exec/detail/bit_cast.hpp>
#include <fcntl.h>
#include <linux/io_uring.h>
#include <linux/version.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

namespace uring
{
  struct request
  {
    std::uint64_t user_data;
    int           op;
    std::uint64_t addr, len;
    long          deadline;  // TIMEOUT
    int           res;
  };
  struct kernel
  {
    std::mutex              m;
    std::condition_variable cv;
    unsigned                sq_n, cq_n;
    char*                   ring;
    io_uring_sqe*           sqes;
    std::uint64_t           counter = 0;   // the eventfd
    std::vector<request>    pending, ready;
    int                     interrupts = 0;
    int                     shorts = 0;
    int                     max_inflight = 0;
    unsigned*               u(int off) { return reinterpret_cast<unsigned*>(ring + off); }
    static constexpr int    sq_head = 0, sq_tail = 64, sq_mask = 128, sq_array = 192, cq_head = 512, cq_tail = 576, cq_mask = 640, cqes = 704;

    explicit kernel(unsigned entries)
    {
      sq_n = 1;
      while (sq_n < entries) sq_n *= 2;
      cq_n = 2 * sq_n;
      ring = static_cast<char*>(std::calloc(1, cqes + cq_n * sizeof(io_uring_cqe)));
      sqes = static_cast<io_uring_sqe*>(std::calloc(sq_n, sizeof(io_uring_sqe)));
      *u(sq_mask) = sq_n - 1;
      *u(cq_mask) = cq_n - 1;
    }
    unsigned posted()
    {
      return std::atomic_ref<unsigned>(*u(cq_tail)).load(std::memory_order_relaxed) - std::atomic_ref<unsigned>(*u(cq_head)).load(std::memory_order_acquire);
    }
    void post(request const & r)
    {
      if (posted() == cq_n) mc::fail("the completion queue overflowed");
      unsigned t = std::atomic_ref<unsigned>(*u(cq_tail)).load(std::memory_order_relaxed);
      auto*    c = reinterpret_cast<io_uring_cqe*>(ring + cqes) + (t & (cq_n - 1));
      c->user_data = r.user_data;
      c->res       = r.res;
      c->flags     = 0;
      std::atomic_ref<unsigned>(*u(cq_tail)).store(t + 1, std::memory_order_release);
    }
    // moves what has become ready from pending to ready
    void progress()
    {
      for (std::size_t i = 0; i < pending.size();)
      {
        request r = pending[i];
        if (r.op == IORING_OP_READ && counter > 0)
        {
          std::memcpy(reinterpret_cast<void*>(r.addr), &counter, 8);
          counter = 0;
          r.res   = 8;
        }
        else if (r.op == IORING_OP_TIMEOUT && mc::now() >= r.deadline) r.res = -ETIME;
        else
        {
          ++i;
          continue;
        }
        pending.erase(pending.begin() + i);
        ready.push_back(r);
      }
    }
    // posts completions until at least `need` are in the queue; beyond that it may stop at any point
    void deliver(unsigned need)
    {
      progress();
      while (!ready.empty())
      {
        unsigned n = unsigned(ready.size());
        bool     may_stop = posted() >= need;
        if (n == 1 && !may_stop) { request r = ready[0]; ready.clear(); post(r); continue; }
        unsigned k = mc::choose(n + (may_stop ? 1 : 0), "completion");
        if (k == n) break;
        request r = ready[k];
        ready.erase(ready.begin() + k);
        post(r);
      }
    }
    void accept(io_uring_sqe const & s)
    {
      request r{s.user_data, s.opcode, s.addr, s.len, 0, 0};
      switch (s.opcode)
      {
      case IORING_OP_NOP: ready.push_back(r); break;
      case IORING_OP_READ: MC_CHECK(s.fd == 1001 && s.len == 8); pending.push_back(r); break;
      case IORING_OP_TIMEOUT:
      {
        long long ts[2];
        std::memcpy(ts, reinterpret_cast<void*>(s.addr), sizeof ts);
        MC_CHECK(s.len == 1 && s.off == 0 && ts[0] >= 0 && ts[1] >= 0 && ts[1] < 1000000000);
        if (s.timeout_flags) mc::fail("timeout flags are not modelled");
        r.deadline = mc::now() + ts[0] * 1000000000 + ts[1];
        pending.push_back(r);
        break;
      }
      case IORING_OP_ASYNC_CANCEL:
      {
        r.res = -ENOENT;
        for (std::size_t i = 0; i < pending.size(); ++i)
          if (pending[i].user_data == s.addr)
          {
            request t = pending[i];
            pending.erase(pending.begin() + i);
            t.res = -ECANCELED;
            ready.push_back(t);
            r.res = 0;
            break;
          }
        ready.push_back(r);
        break;
      }
      default: mc::fail("opcode %d is not modelled", s.opcode);
      }
    }
    int enter(unsigned to_submit, unsigned min_complete, unsigned flags)
    {
      std::unique_lock l(m);
      unsigned n = 0;
      unsigned h = std::atomic_ref<unsigned>(*u(sq_head)).load(std::memory_order_relaxed);
      unsigned t = std::atomic_ref<unsigned>(*u(sq_tail)).load(std::memory_order_acquire);
      if (t - h > sq_n) mc::fail("the submission queue overflowed");
      while (n < to_submit && h != t)
      {
        if (shorts > 0 && n > 0 && mc::choose(2, "short"))
        {
          --shorts;
          return int(n);
        }
        io_uring_sqe s = sqes[u(sq_array)[h & (sq_n - 1)]];
        std::atomic_ref<unsigned>(*u(sq_head)).store(++h, std::memory_order_release);
        accept(s);
        ++n;
      }
      if (n < to_submit || !(flags & IORING_ENTER_GETEVENTS)) return int(n);
      deliver(min_complete);
      while (posted() < min_complete)
      {
        if (interrupts > 0 && mc::choose(2, "signal"))
        {
          --interrupts;
          if (n) return int(n);
          errno = EINTR;
          return -1;
        }
        long d = -1;
        for (auto& r: pending)
          if (r.op == IORING_OP_TIMEOUT && (d < 0 || r.deadline < d)) d = r.deadline;
        if (d < 0) cv.wait(l);
        else cv.wait_until(l, std::chrono::steady_clock::time_point(std::chrono::nanoseconds(d)));
        deliver(min_complete);
      }
      return int(n);
    }
    long signal_eventfd(std::uint64_t v)
    {
      std::lock_guard l(m);
      counter += v;
      deliver(0);
      cv.notify_all();
      return 8;
    }
    ~kernel() { std::free(sqes); if (ring) std::free(ring); }
  };
  inline kernel* k          = nullptr;  // one ring at a time
  inline int     interrupts = 0;
  inline int     shorts     = 0;
  inline int     setup_error = 0;

  inline long syscall(long nr, ...)
  {
    va_list ap;
    va_start(ap, nr);
    long r = -1;
    if (nr == __NR_io_uring_setup)
    {
      unsigned entries = va_arg(ap, unsigned);
      auto*    p       = va_arg(ap, io_uring_params*);
      if (setup_error)
      {
        va_end(ap);
        errno = setup_error;
        return -1;
      }
      k                = new kernel(entries);
      k->interrupts    = interrupts;
      k->shorts        = shorts;
      p->sq_entries    = k->sq_n;
      p->cq_entries    = k->cq_n;
      p->features      = IORING_FEAT_SINGLE_MMAP | IORING_FEAT_NODROP | IORING_FEAT_SUBMIT_STABLE;
      p->sq_off.head = kernel::sq_head; p->sq_off.tail = kernel::sq_tail; p->sq_off.ring_mask = kernel::sq_mask; p->sq_off.array = kernel::sq_array;
      p->cq_off.head = kernel::cq_head; p->cq_off.tail = kernel::cq_tail; p->cq_off.ring_mask = kernel::cq_mask; p->cq_off.cqes = kernel::cqes;
      r = 1000;
    }
    else if (nr == __NR_io_uring_enter)
    {
      int      fd = va_arg(ap, int);
      unsigned a  = va_arg(ap, unsigned), b = va_arg(ap, unsigned), c = va_arg(ap, unsigned);
      MC_CHECK(fd == 1000);
      r = k->enter(a, b, c);
    }
    else mc::fail("system call %ld is not modelled", nr);
    va_end(ap);
    return r;
  }
  inline void* mmap(void*, std::size_t, int, int, int fd, off_t off)
  {
    MC_CHECK(fd == 1000);
    return off == off_t(IORING_OFF_SQES) ? static_cast<void*>(k->sqes) : static_cast<void*>(k->ring);
  }
  inline int     munmap(void*, std::size_t) { return 0; }
  inline int     eventfd(unsigned n, int) { k->counter = n; return 1001; }
  inline ssize_t write(int fd, void const * p, std::size_t n)
  {
    MC_CHECK(fd == 1001 && n == 8);
    std::uint64_t v;
    std::memcpy(&v, p, 8);
    return k->signal_eventfd(v);
  }
  inline int close(int fd)
  {
    if (fd == 1000) delete std::exchange(k, nullptr);
    return 0;
  }
}  // namespace uring
inline long    uring_syscall(long nr, auto... a) { return uring::syscall(nr, a...); }
inline void*   uring_mmap(void* a, std::size_t b, int c, int d, int e, off_t f) { return uring::mmap(a, b, c, d, e, f); }
inline int     uring_munmap(void* a, std::size_t b) { return uring::munmap(a, b); }
inline int     uring_eventfd(unsigned a, int b) { return uring::eventfd(a, b); }
inline ssize_t uring_write(int a, void const * b, std::size_t c) { return uring::write(a, b, c); }
inline int     uring_close(int a) { return uring::close(a); }
#define syscall uring_syscall
#define mmap    uring_mmap
#define munmap  uring_munmap
#define eventfd uring_eventfd
#define write   uring_write
#define close   uring_close
#include <exec/linux/io_uring_context.hpp>
#undef syscall
#undef mmap
#undef munmap
#undef eventfd
#undef write
#undef close
