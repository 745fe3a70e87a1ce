// A stand-in for the executors of third-party libraries: every submitted task runs on a thread of its own, so
// any two tasks may overlap and run in any order (what TBB arenas, Taskflow executors, global dispatch queues and
// ASIO pools all allow).  The context identity is h::ctx_id 50.
#pragma once
#include "../common.hpp"
namespace standin
{
  inline long& submitted() { return mc::ctr(40); }
  template <class F>
  void submit(F f)
  {
    h::quiet q;
    ++submitted();
    std::thread([f]() mutable {
      h::ctx_id = 50;
      f();
    }).detach();
  }
}
