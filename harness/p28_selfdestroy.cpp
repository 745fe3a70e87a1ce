// P28: an operation may be destroyed by its own completion: every adaptor of the catalogue, alone and nested in every
// other one, for every completion kind, inline and from another thread.  (h::go: the receiver deletes the operation.)
// PARTS: 16
#include "catalogue.hpp"
#include <utility>
using h::tv;

namespace
{
  struct env
  {
    ex::inplace_stop_token tok;
    ex::inplace_stop_token query(ex::get_stop_token_t) const noexcept { return tok; }
    ex::inline_scheduler query(ex::get_start_scheduler_t) const noexcept { return {}; }
    ex::inline_scheduler query(ex::get_scheduler_t) const noexcept { return {}; }
  };
  void expect(h::rec const & r, cat::res x, char const * a, char const * b)
  {
    if (x.ch == h::STOP ? !r.is(h::STOP) : !r.is(x.ch, x.v))
      mc::fail("%s(%s): got %s instead of %ld on channel %d", a, b, r.str().c_str(), x.v, x.ch);
  }
  template <int I>
  void one(h::chan c, h::mode m)
  {
    using A = cat::ad<I>;
    h::rec r;
    {
      typename A::state       st;
      ex::inplace_stop_source src;
      h::go(A::wrap(h::src{c, 7, m}, st), r, env{src.get_token()});
      mc::join_all();
    }
    expect(r, A::map(cat::res{c, 7}), A::name, "");
  }
  template <int I, int J>
  void two(h::chan c, h::mode m)
  {
    using A = cat::ad<I>;
    using B = cat::ad<J>;
    if constexpr (cat::nestable(A::mask, B::mask))
    {
      h::rec r;
      {
        typename B::state       sb;
        typename A::state       sa;
        ex::inplace_stop_source src;
        h::go(A::wrap(B::wrap(h::src{c, 7, m}, sb), sa), r, env{src.get_token()});
        mc::join_all();
      }
      expect(r, A::map(B::map(cat::res{c, 7})), A::name, B::name);
    }
  }
  // quick: the inner adaptor is one of these; thorough: all of them
  constexpr bool inner(int j) { return MC_THOROUGH || j % 4 == 3; }
  template <int I> void row()
  {
    int  n = mc::choose(cat::count + 1, "inner adaptor");
    auto c = h::pick_chan();
    auto m = h::pick_mode();
    if (n == cat::count) return one<I>(c, m);
    auto call = [&]<int J>(std::integral_constant<int, J>) { if constexpr (inner(J)) two<I, J>(c, m); };
    [&]<int... J>(std::integer_sequence<int, J...>) { ((J == n ? call(std::integral_constant<int, J>{}) : void()), ...); }(std::make_integer_sequence<int, cat::count>{});
  }
  // a stop-aware sender completes on its own thread while the receiver requests stop
  template <int I> void race_row()
  {
    using A = cat::ad<I>;
    if constexpr (!(A::mask & cat::COPY))
    {
      h::rec  r;
      h::gate g(1);
      int     stops = 0, started = 0;
      for (auto& x: h::ssrc_state) x.store(0, std::memory_order_relaxed);
      auto c = h::pick_chan();
      {
        typename A::state       st;
        ex::inplace_stop_source src;
        std::thread             t([&] { src.request_stop(); });
        h::go(A::wrap(h::ssrc(c, 7, 0, &stops, &started), st), r, g, env{src.get_token()});
        g.wait();
        t.join();
        mc::join_all();
      }
      MC_CHECK(stops <= 1 && started <= 1);
      // either what the sender delivered, or stopped
      auto x = A::map({c, 7}), y = A::map({h::STOP, 0});
      bool a = r.n == 1 && r.ch == x.ch && (x.ch == h::STOP || (r.nv == 1 && r.v[0] == x.v));
      bool b = r.n == 1 && (r.ch == y.ch || r.ch == h::STOP) && (r.ch == h::STOP || (r.nv == 1 && r.v[0] == y.v));
      if (!a && !b) mc::fail("%s: got %s", A::name, r.str().c_str());
    }
  }
  template <int I> struct reg
  {
    mc::registrar r{"P28", (new std::string(std::string("nest_") + cat::ad<I>::name))->c_str(), +[] { row<I>(); }, {.preempt = cat::ad<I>::mask & cat::DETACHED ? 3 : -1}, {.preempt = cat::ad<I>::mask & cat::DETACHED ? 6 : -1}};
    mc::registrar t{"P28", (new std::string(std::string("race_") + cat::ad<I>::name))->c_str(), +[] { race_row<I>(); }, {.preempt = 3}, {.preempt = 5}};
  };
  template <int I> constexpr bool mine = I % MC_PARTS == MC_PART;
  template <int... I> int regs(std::integer_sequence<int, I...>)
  {
    ([] { if constexpr (mine<I>) static reg<I> r; }(), ...);
    return 0;
  }
  int all = regs(std::make_integer_sequence<int, cat::count>{});
}
