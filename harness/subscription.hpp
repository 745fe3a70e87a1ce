// Receivers whose stop source ends with their completion.
#pragma once
#include "common.hpp"

namespace sub
{
  // the stop source of a receiver; it ends with the completion, or with the request if that is still being made
  struct source
  {
    ex::inplace_stop_source src;
    int                     subscribed = 0;  // callbacks of counting tokens (updated behind the engine's back)
    std::atomic<int>        users;
    explicit source(int n) : users(n) {}
    void add(int n) noexcept { h::quiet q; __atomic_fetch_add(&subscribed, n, __ATOMIC_SEQ_CST); }
    int  count() noexcept { h::quiet q; return __atomic_load_n(&subscribed, __ATOMIC_SEQ_CST); }
    void drop() noexcept { if (users.fetch_sub(1) == 1) { h::quiet q; delete this; } }
    static void at_completion(void* p)
    {
      auto* s = static_cast<source*>(p);
      if (s->count() != 0) mc::fail("%d stop callback(s) still registered when the operation completed", s->count());
      s->drop();
    }
  };

  // a stop token which counts its callbacks
  template <class F> struct ccb;
  struct ctok
  {
    source* s;
    template <class F> using callback_type = ccb<F>;
    bool stop_requested() const noexcept { return s->src.get_token().stop_requested(); }
    bool stop_possible() const noexcept { return true; }
    bool operator==(ctok const &) const noexcept = default;
  };
  template <class F> struct ccb
  {
    source*                      s;
    ex::inplace_stop_callback<F> cb;
    template <class G>
    ccb(ctok t, G&& g) noexcept(std::is_nothrow_constructible_v<F, G>)
      : s((t.s->add(1), t.s)), cb(t.s->src.get_token(), static_cast<G&&>(g)) {}
    ccb(ccb&&) = delete;
    ~ccb() { s->add(-1); }
  };

  template <class Tok>
  struct env
  {
    Tok tok;
    Tok query(ex::get_stop_token_t) const noexcept { return tok; }
    ex::inline_scheduler query(ex::get_start_scheduler_t) const noexcept { return {}; }
    ex::inline_scheduler query(ex::get_scheduler_t) const noexcept { return {}; }
  };
  using cenv = env<ctok>;
  using ienv = env<ex::inplace_stop_token>;
  template <class Env> Env make_env(source* s)
  {
    if constexpr (std::same_as<Env, cenv>) return {ctok{s}};
    else return {s->src.get_token()};
  }

  // request: 0 none, 1 before the start, 2 by another thread at any time, 3 by the starting thread after the start
  template <class Env, class S>
  void run(S s, int request, h::rec& r)
  {
    auto*   src = new source(request >= 2 ? 2 : 1);
    h::gate g;
    r.at = source::at_completion;
    r.at_arg = src;
    if (request == 1) src->src.request_stop();
    std::thread t;
    if (request == 2) t = std::thread([src] { src->src.request_stop(); src->drop(); });
    h::go(std::move(s), r, g, make_env<Env>(src));
    if (request == 3) { src->src.request_stop(); src->drop(); }
    g.wait();
    if (request == 2) t.join();
    MC_CHECK(r.n == 1);
  }
}  // namespace sub
