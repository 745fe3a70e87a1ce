#pragma once
#include "../standin.hpp"
namespace tbb
{
  // the part of oneTBB's interface that stdexec uses
  class task_arena
  {
    int n_;
   public:
    struct attach {};
    static constexpr int automatic = -1;
    explicit task_arena(int n = automatic, unsigned = 1) : n_(n) {}
    explicit task_arena(attach) : n_(automatic) {}
    task_arena(task_arena const & o) : n_(o.n_) {}
    void initialize() {}
    int  max_concurrency() const { return n_ < 0 ? 2 : n_; }
    template <class F> void enqueue(F&& f) { standin::submit(static_cast<F&&>(f)); }
  };
}
