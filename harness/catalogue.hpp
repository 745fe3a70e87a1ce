// A catalogue of the library's adaptors.  Every entry turns a sender of (tv) into a sender of (tv), so that entries
// can be nested, and says what it does to a completion and to the environment seen by the wrapped sender.
#pragma once
#include "common.hpp"
#include <exec/any_sender_of.hpp>
#include <exec/async_scope.hpp>
#include <exec/ensure_started.hpp>
#include <exec/finally.hpp>
#include <exec/fork_join.hpp>
#include <exec/into_tuple.hpp>
#include <exec/materialize.hpp>
#include <exec/repeat_n.hpp>
#include <exec/repeat_until.hpp>
#include <exec/scope.hpp>
#include <exec/sequence.hpp>
#include <exec/split.hpp>
#include <exec/unless_stop_requested.hpp>
#include <exec/variant_sender.hpp>
#include <exec/when_any.hpp>

namespace cat
{
  using h::tv;
  using h::chan;

  // what the adaptor overrides in the environment of the wrapped sender
  enum : unsigned
  {
    STOP_OWN  = 1,   // another stop token, to which stop requests of the receiver are forwarded
    STOP_NONE = 2,   // a stop token that does not see the receiver's stop requests
    SCHED     = 4,   // another start scheduler
    DETACHED  = 8,   // the wrapped sender runs in an environment of its own (shared/erased)
    HOPS      = 16,  // may move to another thread
    COPY = 64,       // the wrapped sender must be copyable
    REFS = 256,      // connects the wrapped sender to a __receiver_ref (two of these cannot be nested: compile error)
    OKSCHED = 1024,  // compiles around NEEDS_SCHED entries
    LEAF_ONLY = 512, // does not compile around most other adaptors
    MOVE_ONLY = 128, // the result is not copyable
    NEEDS_SCHED = 32 // needs a start scheduler in the receiver's environment
  };

  struct res { chan ch; long v; };
  struct none {};
  struct scope_state
  {
    exec::async_scope scope;
    ~scope_state() { stdexec::sync_wait(scope.on_empty()); }
  };
  struct counting_state
  {
    ex::counting_scope scope;
    ~counting_state() { stdexec::sync_wait(scope.join()); }
  };
  struct stop_state { ex::inplace_stop_source src; };

  inline long code(int e) { return e; }
  inline long code(std::exception_ptr const & e) { return h::decode(e); }

  constexpr bool nestable(unsigned outer, unsigned inner)
  {
    return !(outer & LEAF_ONLY) && (!(inner & NEEDS_SCHED) || (outer & OKSCHED)) && !((outer & COPY) && (inner & MOVE_ONLY)) && !((outer & REFS) && (inner & REFS));
  }

  template <int I> struct ad;
  constexpr int base_line = __COUNTER__ + 1;  // entries are numbered from 0
#define CAT(NAME, MASK, STATE, MAP, ...)                                                           \
  template <> struct ad<__COUNTER__ - base_line>                                                   \
  {                                                                                                \
    static constexpr char const * name = #NAME;                                                    \
    static constexpr unsigned mask = (MASK);                                                       \
    using state = STATE;                                                                           \
    static res map(res x) { MAP; return x; }                                                       \
    template <class S> static auto wrap(S s, state& st) { return __VA_ARGS__; }                    \
  };
#define ID (void) 0

  CAT(then, OKSCHED | 0, none, ID, ex::then(std::move(s), [](tv x) noexcept(!H_FAULTS) { h::maybe(); return x; }))
  CAT(upon_error, OKSCHED | 0, none, if (x.ch == h::ERR) x.ch = h::VAL, ex::upon_error(std::move(s), [](auto&& e) noexcept(!H_FAULTS) { h::maybe(); return tv(int(code(e))); }))
  CAT(upon_stopped, OKSCHED | 0, none, if (x.ch == h::STOP) x = (res{h::VAL, 50}), ex::upon_stopped(std::move(s), []() noexcept(!H_FAULTS) { h::maybe(); return tv(50); }))
  CAT(let_value, OKSCHED | 0, none, ID, ex::let_value(std::move(s), [](tv& x) { h::maybe(); return ex::just(std::move(x)); }))
  CAT(let_value_2nd, 0, none, ID, ex::let_value(ex::just(tv(0)), [s = std::move(s)](tv&) mutable { h::maybe(); return std::move(s); }))
  CAT(let_error, OKSCHED | 0, none, ID, ex::let_error(std::move(s), [](auto& e) { h::maybe(); return ex::just_error(int(code(e))); }))
  CAT(let_error_2nd, 0, none, ID, ex::let_error(ex::just_error(1), [s = std::move(s)](int) mutable { h::maybe(); return std::move(s); }))
  CAT(let_stopped, OKSCHED | 0, none, ID, ex::let_stopped(std::move(s), [] { h::maybe(); return ex::just_stopped(); }))
  CAT(let_stopped_2nd, 0, none, ID, ex::let_stopped(ex::just_stopped(), [s = std::move(s)]() mutable { h::maybe(); return std::move(s); }))
  CAT(let_sched_2nd, SCHED | HOPS, none, ID, ex::let_value(ex::schedule(h::thread_sched{5}), [s = std::move(s)]() mutable { h::maybe(); return std::move(s); }))
  CAT(continues_on_inline, OKSCHED | 0, none, ID, ex::continues_on(std::move(s), ex::inline_scheduler{}))
  CAT(continues_on_thread, OKSCHED | HOPS, none, ID, ex::continues_on(std::move(s), h::thread_sched{1}))
  CAT(starts_on_inline, SCHED, none, ID, ex::starts_on(ex::inline_scheduler{}, std::move(s)))
  CAT(starts_on_thread, SCHED | HOPS, none, ID, ex::starts_on(h::thread_sched{2}, std::move(s)))
  CAT(on_thread, SCHED | HOPS | NEEDS_SCHED, none, ID, ex::on(h::thread_sched{3}, std::move(s)))
  CAT(when_all_1st, OKSCHED | STOP_OWN, none, ID, ex::when_all(std::move(s), ex::just()))
  CAT(when_all_2nd, STOP_OWN, none, ID, ex::when_all(ex::just(), std::move(s)))
  CAT(when_all_variant, STOP_OWN, none, ID, ex::when_all_with_variant(std::move(s)) | ex::then([](auto v) { h::maybe(); return std::move(std::get<0>(std::get<0>(v))); }))
  CAT(when_any, OKSCHED | STOP_OWN, none, ID, exec::when_any(std::move(s)))
  CAT(into_variant, 0, none, ID, ex::into_variant(std::move(s)) | ex::then([](auto v) noexcept(!H_FAULTS) { h::maybe(); return std::move(std::get<0>(std::get<0>(v))); }))
  CAT(into_tuple, 0, none, ID, exec::into_tuple(std::move(s)) | ex::then([](auto t) noexcept(!H_FAULTS) { h::maybe(); return std::move(std::get<0>(t)); }))
  CAT(stopped_as_optional, 0, none, if (x.ch == h::STOP) x = (res{h::VAL, 51}), ex::stopped_as_optional(std::move(s)) | ex::then([](auto o) noexcept(!H_FAULTS) { h::maybe(); return o ? std::move(*o) : tv(51); }))
  CAT(stopped_as_error, 0, none, if (x.ch == h::STOP) x = (res{h::ERR, 61}), ex::stopped_as_error(std::move(s), 61))
  CAT(materialize, REFS, none, ID, exec::dematerialize(exec::materialize(std::move(s))))
  CAT(finally_1st, 0, none, ID, exec::finally(std::move(s), ex::just()))
  CAT(finally_2nd, 0, none, if (x.ch == h::VAL) x.v = 1, exec::finally(ex::just(tv(1)), std::move(s) | ex::then([](tv) noexcept(!H_FAULTS) { h::maybe(); })))
  CAT(sequence_1st, 0, none, if (x.ch == h::VAL) x.v = 3, exec::sequence(std::move(s) | ex::then([](tv) noexcept(!H_FAULTS) { h::maybe(); }), ex::just(tv(3))))
  CAT(sequence_2nd, 0, none, ID, exec::sequence(ex::just(), std::move(s)))
  CAT(repeat_n, COPY, none, if (x.ch == h::VAL) x.v = 2, exec::repeat_n(std::move(s) | ex::then([](tv) noexcept(!H_FAULTS) { h::maybe(); }), 2) | ex::then([] { h::maybe(); return tv(2); }))
  CAT(repeat_until, COPY, none, if (x.ch == h::VAL) x.v = 2, exec::repeat_until(std::move(s) | ex::then([](tv) noexcept(!H_FAULTS) { h::maybe(); return true; })) | ex::then([] { h::maybe(); return tv(2); }))
  CAT(stop_when, OKSCHED | STOP_OWN, stop_state, ID, ex::__stop_when(std::move(s), st.src.get_token()))
  CAT(unstoppable, STOP_NONE, none, ID, ex::unstoppable(std::move(s)))
  CAT(unless_stop_requested, OKSCHED | REFS, none, ID, exec::unless_stop_requested(std::move(s)))
  CAT(variant_sender, 0, none, ID, exec::variant_sender<S, decltype(ex::just(tv(0)))>(std::move(s)))
  CAT(bulk, 0, none, ID, ex::bulk(std::move(s), ex::seq, 2, [](int, tv& x) noexcept(!H_FAULTS) { h::maybe(); (void) x.get(); }))
  CAT(bulk_chunked, 0, none, ID, ex::bulk_chunked(std::move(s), ex::seq, 2, [](int, int, tv& x) noexcept(!H_FAULTS) { h::maybe(); (void) x.get(); }))
  CAT(affine, NEEDS_SCHED, none, ID, ex::affine(std::move(s)))
  CAT(associate, 0, counting_state, ID, ex::associate(std::move(s), st.scope.get_token()))
  CAT(nest, STOP_NONE, scope_state, ID, st.scope.nest(std::move(s)))
  CAT(fork_join, REFS | LEAF_ONLY, none, ID, exec::fork_join(std::move(s), ex::then([](tv const & x) { h::maybe(); return x; })))
  CAT(split, DETACHED | STOP_OWN, none, ID, exec::split(std::move(s)) | ex::then([](tv const & x) { h::maybe(); return x; }))
  CAT(ensure_started, MOVE_ONLY | DETACHED | STOP_OWN, none, ID, exec::ensure_started(std::move(s)) | ex::then([](auto&& x) { h::maybe(); return tv(x); }))
  CAT(spawn_future, MOVE_ONLY | DETACHED | STOP_NONE, counting_state, ID, ex::spawn_future(std::move(s), st.scope.get_token()))
  CAT(scope_future, MOVE_ONLY | DETACHED | STOP_NONE, scope_state, ID, st.scope.spawn_future(std::move(s)))

  constexpr int count = __COUNTER__ - base_line;
#undef CAT
#undef ID
}  // namespace cat
