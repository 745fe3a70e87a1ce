// P27: every single failure of a copy/move, a user function or an allocation inside a pipeline surfaces once.
// PARTS: 16
#define H_FAULTS 1
#include "catalogue.hpp"
#include <utility>
using h::tv;

namespace
{
  struct env
  {
    ex::inplace_stop_token tok;
    ex::inplace_stop_token query(ex::get_stop_token_t) const noexcept { return tok; }
    ex::inline_scheduler query(ex::get_start_scheduler_t) const noexcept { return {}; }
    ex::inline_scheduler query(ex::get_scheduler_t) const noexcept { return {}; }
  };
  // completes with a value owned by the operation state; copying/moving the sender and connecting it can fail
  struct leaf
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures<ex::set_value_t(tv), ex::set_error_t(int), ex::set_stopped_t()>;
    h::chan c; h::mode m; int* started; tv val;
    template <class R>
    struct op
    {
      R r; h::chan c; h::mode m; int* started; tv val;
      op(R rr, leaf const & l) : r(std::move(rr)), c(l.c), m(l.m), started(l.started), val(l.val) { h::maybe(); }
      op(op&&) = delete;
      void finish() noexcept
      {
        switch (c)
        {
        case h::VAL: ex::set_value(std::move(r), std::move(val)); break;
        case h::ERR: ex::set_error(std::move(r), int(val.get())); break;
        default: ex::set_stopped(std::move(r));
        }
      }
      void start() & noexcept
      {
        ++*started;
        if (m == h::INLINE) finish();
        else { h::quiet q; std::thread([this] { finish(); }).detach(); }
      }
    };
    template <class R> auto connect(R r) const -> op<R> { return op<R>(std::move(r), *this); }
  };
  enum fault { NOTHING, USER, ALLOC };
  struct plan { fault f; int k; h::chan c; h::mode m; };

  bool same(h::rec const & r, cat::res x) { return r.n == 1 && r.ch == x.ch && (x.ch == h::STOP || (r.nv == 1 && r.v[0] == x.v)); }

  // finally: when the final sender fails too, its completion is the one which is delivered
  template <class A> constexpr bool is_final = std::string_view(A::name) == "finally_2nd";
  template <class A> std::optional<cat::res> final_of(cat::res child)
  {
    if (!is_final<A> || child.ch == h::VAL) return {};
    return A::map(child);
  }

  template <class Mk, class Map>
  void run(plan p, unsigned mask, Mk mk, Map map, char const * a, char const * b, std::optional<cat::res> late)
  {
    h::rec r;
    int    started = 0;
    bool   thrown = false;
    auto*  keep = new int(0);  // (the heap is checked for leaks when the execution ends)
    {
      ex::inplace_stop_source src;
      leaf l{p.c, p.m, &started, tv(7)};
      if (p.f == USER) h::throw_at = p.k;
      if (p.f == ALLOC) mc::fail_alloc(p.k);
      try { mk(l, r, env{src.get_token()}); }
      catch (h::boom&) { thrown = true; }
      catch (std::bad_alloc&) { thrown = true; }
      mc::join_all();
    }
    long left = p.f == USER ? long(h::throw_at) : mc::fail_alloc(0);
    h::throw_at = 0;
    mc::fail_alloc(0);
    bool fired = p.f != NOTHING && left == 0;
    if (!fired)
    {
      if (!same(r, map(cat::res{p.c, 7}))) mc::fail("%s(%s): no fault, but got %s", a, b, r.str().c_str());
    }
    else if (thrown)
    {
      if (r.n != 0) mc::fail("%s(%s): threw and completed with %s", a, b, r.str().c_str());
      if (started && !(mask & cat::DETACHED)) mc::fail("%s(%s): threw after something had been started", a, b);
    }
    else
    {
      long e = p.f == USER ? 1077 : 1500;
      auto x = map(cat::res{h::ERR, e});
      if (!same(r, {h::ERR, e}) && !same(r, x) && !(late && same(r, *late))) mc::fail("%s(%s): failure %d surfaced as %s", a, b, p.k, r.str().c_str());
    }
    delete keep;
    // there must be no further failure points beyond the explored ones
    if (p.f != NOTHING && fired && p.k == 160) mc::fail("%s(%s): more failure points than explored", a, b);
    mc::outcome("%d %s", thrown, r.str().c_str());
  }
  template <int I>
  void one(plan p)
  {
    using A = cat::ad<I>;
    if (p.f == ALLOC && (A::mask & cat::HOPS)) return;
    typename A::state st;
    run(p, A::mask, [&](auto l, auto& r, auto e) { h::go(A::wrap(std::move(l), st), r, e); }, [](cat::res x) { return A::map(x); }, A::name, "", final_of<A>({p.c, 7}));
  }
  template <int I, int J>
  void two(plan p)
  {
    using A = cat::ad<I>;
    using B = cat::ad<J>;
    if constexpr (cat::nestable(A::mask, B::mask))
    {
      if (p.f == ALLOC && ((A::mask | B::mask) & cat::HOPS)) return;
      typename B::state sb;
      typename A::state sa;
      auto late = final_of<A>(B::map({p.c, 7}));
      if (!late)
        if (auto x = final_of<B>({p.c, 7})) late = A::map(*x);
      run(p, A::mask | B::mask, [&](auto l, auto& r, auto e) { h::go(A::wrap(B::wrap(std::move(l), sb), sa), r, e); },
          [](cat::res x) { return A::map(B::map(x)); }, A::name, B::name, late);
    }
  }
  constexpr bool inner(int j) { return MC_THOROUGH || j % 8 == 3; }
  template <int I> void row()
  {
    int  n = mc::choose(cat::count + 1, "inner adaptor");
    if (n < cat::count && !inner(n)) return;
    plan p;
    p.c = h::pick_chan();
    p.f = fault(mc::choose(3, "fault kind"));
    p.m = p.f == ALLOC ? h::INLINE : h::pick_mode();
    p.k = p.f == NOTHING ? 0 : mc::choose(160, "failure point") + 1;
    if (n == cat::count) return one<I>(p);
    auto call = [&]<int J>(std::integral_constant<int, J>) { if constexpr (inner(J)) two<I, J>(p); };
    [&]<int... J>(std::integer_sequence<int, J...>) { ((J == n ? call(std::integral_constant<int, J>{}) : void()), ...); }(std::make_integer_sequence<int, cat::count>{});
  }
  template <int I> struct reg
  {
    mc::registrar r{"P27", (new std::string(std::string("nest_") + cat::ad<I>::name))->c_str(), +[] { row<I>(); }, {.preempt = 0}, {.preempt = 1}};
  };
  template <int I> constexpr bool mine = I % MC_PARTS == MC_PART;
  template <int... I> int regs(std::integer_sequence<int, I...>)
  {
    ([] { if constexpr (mine<I>) static reg<I> r; }(), ...);
    return 0;
  }
  int all = regs(std::make_integer_sequence<int, cat::count>{});
}
