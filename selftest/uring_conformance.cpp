// Request sequences on the real io_uring (built with -DREAL) and on the model of harness/uring_kernel.hpp.
// Every order of completions observed on the real kernel must be one the model can produce; see run.py.
// A program is a sequence of LEN letters:
//   R read of the eventfd (at most one pending)   W write to the eventfd   S timeout of 2 ms   L timeout of 1 hour
//   N no-op   0-9 cancellation of the request made by that step
//   each request is submitted by an enter that does not wait; X waits for one completion (if a timeout of 2 ms is pending).
// At the end everything pending is cancelled and waited for.  The outcome is the list of completions step:result in order.
#ifdef REAL
#  include <cstdint>
#  include <cstdio>
#  include <cstdlib>
#  include <cstring>
#  include <cerrno>
#  include <atomic>
#  include <linux/io_uring.h>
#  include <sys/eventfd.h>
#  include <sys/mman.h>
#  include <sys/syscall.h>
#  include <unistd.h>
#else
#  include "../harness/uring_kernel.hpp"
#  include <set>
#  define syscall uring_syscall
#  define mmap    uring_mmap
#  define munmap  uring_munmap
#  define eventfd uring_eventfd
#  define write   uring_write
#  define close   uring_close
#endif
#include <string>
#include <vector>

#ifndef REAL
#  include <fstream>
// the observed traces ("word = outcome"), read before the checker starts; executions that leave them are abandoned
static std::set<std::string> const observed = [] {
  std::set<std::string> r;
  if (auto* f = std::getenv("OBSERVED"))
  {
    std::ifstream in(f);
    for (std::string l; std::getline(in, l);) r.insert(l);
  }
  return r;
}();
static void follow(std::string const & word, std::string const & out)
{
  std::string s = word + " = " + out;
  auto        i = observed.lower_bound(s);
  if (!observed.empty() && (i == observed.end() || i->compare(0, s.size(), s) != 0)) mc::discard();
}
#else
static void follow(std::string const &, std::string const &) {}
#endif
#ifndef LEN
#  define LEN 4
#endif

struct ring
{
  int             fd, ev;
  io_uring_params p;
  char *          q;
  io_uring_sqe*   sqes;
  std::string     out;
  int             submitted = 0, completed = 0;
  bool            done[64] = {};
  std::uint64_t   value = 0;
  std::string     word;
  long long       ts[2][2] = {{0, 2000000}, {3600, 0}};
  ring()
  {
    std::memset(&p, 0, sizeof p);
    fd = int(syscall(__NR_io_uring_setup, 8, &p));
    if (fd < 0) { std::printf("UNAVAILABLE\n"); std::exit(3); }
    std::size_t n = p.cq_off.cqes + p.cq_entries * sizeof(io_uring_cqe);
    std::size_t m = p.sq_off.array + p.sq_entries * 4;
    q    = static_cast<char*>(mmap(nullptr, n > m ? n : m, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_POPULATE, fd, IORING_OFF_SQ_RING));
    sqes = static_cast<io_uring_sqe*>(mmap(nullptr, p.sq_entries * sizeof(io_uring_sqe), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_POPULATE, fd, IORING_OFF_SQES));
    ev   = int(eventfd(0, EFD_CLOEXEC));
  }
  ~ring()
  {
    munmap(q, p.cq_off.cqes + p.cq_entries * sizeof(io_uring_cqe));
    munmap(sqes, p.sq_entries * sizeof(io_uring_sqe));
    close(ev);
    close(fd);
  }
  unsigned& at(unsigned o) { return *reinterpret_cast<unsigned*>(q + o); }
  void enter(int n, int min) { while (syscall(__NR_io_uring_enter, fd, n, min, IORING_ENTER_GETEVENTS, nullptr, 0) < 0) if (errno != EINTR) std::abort(); reap(); }
  void reap()
  {
    unsigned h = at(p.cq_off.head), t = std::atomic_ref<unsigned>(at(p.cq_off.tail)).load(std::memory_order_acquire);
    for (; h != t; ++h)
    {
      auto& c = reinterpret_cast<io_uring_cqe*>(q + p.cq_off.cqes)[h & (p.cq_entries - 1)];
      out += std::to_string(c.user_data) + ":" + std::to_string(c.res) + " ";
      done[c.user_data] = true;
      ++completed;
      follow(word, out);
    }
    std::atomic_ref<unsigned>(at(p.cq_off.head)).store(h, std::memory_order_release);
  }
  void submit(io_uring_sqe s)
  {
    unsigned t = at(p.sq_off.tail), i = t & (p.sq_entries - 1);
    sqes[i] = s;
    at(p.sq_off.array + 4 * i) = i;
    std::atomic_ref<unsigned>(at(p.sq_off.tail)).store(t + 1, std::memory_order_release);
    ++submitted;
    enter(1, 0);
  }
  void step(int i, char c, unsigned base = 0)
  {
    io_uring_sqe s;
    std::memset(&s, 0, sizeof s);
    s.user_data = unsigned(i) + base;
    switch (c)
    {
    case 'R': s.opcode = IORING_OP_READ; s.fd = ev; s.addr = reinterpret_cast<std::uint64_t>(&value); s.len = 8; submit(s); break;
    case 'S': case 'L': s.opcode = IORING_OP_TIMEOUT; s.addr = reinterpret_cast<std::uint64_t>(&ts[c == 'L']); s.len = 1; submit(s); break;
    case 'N': s.opcode = IORING_OP_NOP; submit(s); break;
    case 'X':
      for (int k = 0; k < i; ++k)
        if (word[k] == 'S' && !done[k]) { enter(0, 1); break; }  // it certainly completes
      break;
    case 'W': { std::uint64_t one = 1; if (write(ev, &one, 8) != 8) std::abort(); break; }
    default: s.opcode = IORING_OP_ASYNC_CANCEL; s.addr = unsigned(c - '0'); submit(s); break;
    }
  }
};
// the letters possible after the prefix
inline std::string letters(std::string const & w)
{
  std::string r = "SLWN";
  bool read = false, timer = false, waited = false;
  for (std::size_t i = 0; i < w.size(); ++i)
  {
    char c = w[i];
    read |= c == 'R';
    timer |= c == 'S';
    waited |= c == 'X';
    if (c == 'R' || c == 'S' || c == 'L' || c == 'N') r += char('0' + i);
  }
  if (!read) r += 'R';
  if (timer && !waited) r += 'X';
  return r;
}
inline std::string run(std::string const & w)
{
  ring r;
  r.word = w;
  for (std::size_t i = 0; i < w.size(); ++i) r.step(int(i), w[i]);
  for (std::size_t i = 0; i < w.size(); ++i)
    if ((w[i] == 'R' || w[i] == 'L' || w[i] == 'S') && !r.done[i]) r.step(int(i), char('0' + i), 20);
  while (r.completed < r.submitted) r.enter(0, 1);
  return r.out;
}

#ifdef REAL
static void all(std::string const & w, int reps)
{
  if (w.size() == LEN) { for (int i = 0; i < reps; ++i) std::printf("%s = %s\n", w.c_str(), run(w).c_str()); return; }
  for (char c : letters(w)) all(w + c, reps);
}
int main(int, char** argv) { all("", std::atoi(argv[1])); }
#else
MC_SCENARIO(SELF, conformance, {.preempt = 0, .early_timer = 1})
{
  std::string w;
  while (w.size() < LEN) { auto l = letters(w); w += l[mc::choose(int(l.size()), "letter")]; }
  auto o = run(w);
  mc::outcome("%s = %s", w.c_str(), o.c_str());
}
#endif
