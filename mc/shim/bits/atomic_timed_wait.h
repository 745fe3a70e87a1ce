// Companion of the atomic_wait.h shim; the library under test performs no timed atomic waits, so a
// plain polling loop is enough for <semaphore>/<stop_token> to compile.
#ifndef _GLIBCXX_ATOMIC_TIMED_WAIT_H
#define _GLIBCXX_ATOMIC_TIMED_WAIT_H 1
#pragma GCC system_header
#include <bits/atomic_wait.h>
#include <bits/chrono.h>
namespace std _GLIBCXX_VISIBILITY(default)
{
_GLIBCXX_BEGIN_NAMESPACE_VERSION
  template<typename _Pred, typename _Clock, typename _Dur>
    bool
    __atomic_wait_address_until_bare(const __detail::__platform_wait_t*, _Pred __pred,
                                     const chrono::time_point<_Clock, _Dur>& __atime) noexcept
    {
      while (!__pred())
        {
          if (_Clock::now() >= __atime) return false;
          __detail::__thread_yield();
        }
      return true;
    }
  template<typename _Pred, typename _Rep, typename _Period>
    bool
    __atomic_wait_address_for_bare(const __detail::__platform_wait_t* __addr, _Pred __pred,
                                   const chrono::duration<_Rep, _Period>& __rtime) noexcept
    { return __atomic_wait_address_until_bare(__addr, __pred, chrono::steady_clock::now() + __rtime); }
_GLIBCXX_END_NAMESPACE_VERSION
}
#endif
