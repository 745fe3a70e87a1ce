// Replacement for libstdc++'s <bits/atomic_wait.h>, used only when building harnesses for the
// model checker.  The spin / waiter-pool / futex machinery is replaced by two engine primitives:
//   mc_atomic_wait(addr, old, n): atomically { if the n bytes at addr differ from old, return;
//                                              else block until notified }
//   mc_atomic_notify(addr, all)
// which is exactly the contract that atomic<T>::wait / notify are specified (and implemented) with.
#ifndef _GLIBCXX_ATOMIC_WAIT_H
#define _GLIBCXX_ATOMIC_WAIT_H 1
#pragma GCC system_header
#include <bits/c++config.h>
#include <bits/functional_hash.h>
#include <bits/gthr.h>
#include <ext/numeric_traits.h>
#include <bits/std_mutex.h>
#include <unistd.h>
#include <bits/functexcept.h>
#define __cpp_lib_atomic_wait 201907L
extern "C" void mc_atomic_wait(const void* addr, const void* old, unsigned long n) noexcept;
extern "C" void mc_atomic_notify(const void* addr, int all) noexcept;
namespace std _GLIBCXX_VISIBILITY(default)
{
_GLIBCXX_BEGIN_NAMESPACE_VERSION
  namespace __detail
  {
    using __platform_wait_t = int;
    inline constexpr size_t __platform_wait_alignment = 4;
    inline void __thread_yield() noexcept { __gthread_yield(); }
    inline void __thread_relax() noexcept { __builtin_ia32_pause(); }
    template<typename _Pred>
      bool __atomic_spin(_Pred& __pred) noexcept { return __pred(); }
    template<typename _Tp>
      bool __atomic_compare(const _Tp& __a, const _Tp& __b)
      { return __builtin_memcmp(&__a, &__b, sizeof(_Tp)) == 0; }
  }
  template<typename _Tp, typename _ValFn>
    void
    __atomic_wait_address_v(const _Tp* __addr, _Tp __old, _ValFn __vfn) noexcept
    {
      while (__detail::__atomic_compare(__old, __vfn()))
        mc_atomic_wait(__addr, &__old, sizeof(_Tp));
    }
  template<typename _Tp, typename _Pred>
    void
    __atomic_wait_address(const _Tp* __addr, _Pred __pred) noexcept
    {
      for (;;)
        {
          _Tp __v;
          __atomic_load(const_cast<_Tp*>(__addr), &__v, __ATOMIC_ACQUIRE);
          if (__pred()) return;
          mc_atomic_wait(__addr, &__v, sizeof(_Tp));
        }
    }
  template<typename _Pred>
    void
    __atomic_wait_address_bare(const __detail::__platform_wait_t* __addr, _Pred __pred) noexcept
    { std::__atomic_wait_address(__addr, __pred); }
  template<typename _Tp>
    void
    __atomic_notify_address(const _Tp* __addr, bool __all) noexcept
    { mc_atomic_notify(__addr, __all); }
  inline void
  __atomic_notify_address_bare(const __detail::__platform_wait_t* __addr, bool __all) noexcept
  { mc_atomic_notify(__addr, __all); }
_GLIBCXX_END_NAMESPACE_VERSION
}
#endif
