// P23: sequence senders deliver every item once, in order, before completing.
#include "common.hpp"
#include <exec/sequence/any_sequence_of.hpp>
#include <exec/sequence/empty_sequence.hpp>
#include <exec/sequence/ignore_all_values.hpp>
#include <exec/sequence/iterate.hpp>
#include <exec/sequence/merge.hpp>
#include <exec/sequence/merge_each.hpp>
#include <exec/sequence/transform_each.hpp>
#include <exec/sequence_senders.hpp>
#include <array>
#include <ranges>
#include <span>
using h::chan;
using h::tv;

namespace
{
  // ---------------------------------------------------------------------------------------------
  // what the consumer saw (kept in the checker's own memory: adds no synchronization between threads)
  long& n_items() { return mc::ctr(0); }
  long& item_at(long i) { return mc::ctr(1 + i); }
  long& active() { return mc::ctr(40); }
  long& ended() { return mc::ctr(41); }
  long& nexts() { return mc::ctr(42); }
  constexpr long code(chan c, long v) { return c * 10000L + v; }
  void record(chan c, long v)
  {
    if (n_items() >= 30) mc::fail("too many items delivered");
    item_at(n_items()++) = code(c, v);
  }
  int count(chan c, long v) { int n = 0; for (long i = 0; i < n_items(); ++i) n += item_at(i) == code(c, v); return n; }
  int count(chan c) { int n = 0; for (long i = 0; i < n_items(); ++i) n += item_at(i) / 10000 == c; return n; }
  bool ordered(long lo, long hi)  // the values in [lo,hi) appear in increasing order, each at most once
  {
    long last = -1;
    for (long i = 0; i < n_items(); ++i)
      if (item_at(i) / 10000 == h::VAL)
        if (long v = item_at(i) % 10000; v >= lo && v < hi) { if (v <= last) return false; last = v; }
    return true;
  }
  std::string items()
  {
    std::string s;
    for (long i = 0; i < n_items(); ++i) s += "?ves"[item_at(i) / 10000] + std::to_string(item_at(i) % 10000) + " ";
    return s;
  }

  // the consumer's side of an item: takes the item's result, then answers the producer with "more" or "break"
  struct policy
  {
    int  brk = -1;      // break at this item (counted over all set_next calls)
    bool hop = false;   // answer from another thread
  };
  template <class Item>
  struct next_sndr
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>;
    Item   item;
    policy pol;
    int    index;
    template <class R>
    struct op
    {
      struct ircvr
      {
        using receiver_concept = ex::receiver_t;
        op* o;
        template <class... A> void set_value(A&&... a) noexcept
        {
          long v = 0;
          { auto sink = [&](auto&& x) { auto y = static_cast<decltype(x)>(x); v = h::conv(y); }; (sink(static_cast<A&&>(a)), ...); }
          o->done(h::VAL, v);
        }
        template <class E> void set_error(E&& e) noexcept { auto y = static_cast<E&&>(e); o->done(h::ERR, h::conv(y)); }
        void set_stopped() noexcept { o->done(h::STOP, 0); }
        ex::env_of_t<R> get_env() const noexcept { return ex::get_env(o->r); }
      };
      R                                    r;
      policy                               pol;
      int                                  index;
      bool                                 brk = false;
      ex::connect_result_t<Item, ircvr>    in;
      op(R rr, next_sndr&& s) : r(std::move(rr)), pol(s.pol), index(s.index), in(ex::connect(std::move(s.item), ircvr{this})) { ++active(); }
      op(op&&) = delete;
      ~op() { --active(); }
      void start() & noexcept
      {
        if (ended()) mc::fail("an item was started after the sequence had completed");
        ex::start(in);
      }
      void done(chan c, long v) noexcept
      {
        if (ended()) mc::fail("an item completed after the sequence had completed");
        record(c, v);
        brk = c != h::VAL || index == pol.brk;
        if (pol.hop) std::thread([this] { answer(); }).detach();
        else answer();
      }
      void answer() noexcept
      {
        if (brk) ex::set_stopped(std::move(r));
        else ex::set_value(std::move(r));
      }
    };
    template <class R> auto connect(R r) && -> op<R> { return op<R>(std::move(r), std::move(*this)); }
  };
  template <class Env> struct slink { h::rec* r; Env env; policy pol; void* self; void (*del)(void*) noexcept; h::gate* g = nullptr; };
  template <class Env>
  struct srcvr
  {
    using receiver_concept = ex::receiver_t;
    slink<Env>* l;
    template <class Item> auto set_next(Item&& item) & -> next_sndr<std::decay_t<Item>>
    {
      if (ended()) mc::fail("set_next after the sequence had completed");
      return {static_cast<Item&&>(item), l->pol, int(nexts()++)};
    }
    void fin(chan c)
    {
      l->r->hit(c);
      ended() = 1;
    }
    void del() noexcept
    {
      auto* g = l->g;
      l->del(l->self);
      if (active() != 0) mc::fail("%ld item operation(s) outlive the sequence", active());
      if (g) g->done();
    }
    void set_value() noexcept { fin(h::VAL); del(); }
    template <class E> void set_error(E&& e) noexcept { fin(h::ERR); { auto y = static_cast<E&&>(e); put1(*l->r, y); } del(); }
    void set_stopped() noexcept { fin(h::STOP); del(); }
    Env const & get_env() const noexcept { return l->env; }
  };
  template <class S, class Env>
  struct sbox
  {
    slink<Env>                                    link;
    exec::subscribe_result_t<S, srcvr<Env>>       op;
    sbox(S&& s, h::rec* r, Env e, policy p)
      : link{r, std::move(e), p, this, [](void* p) noexcept { delete static_cast<sbox*>(p); }}
      , op(exec::subscribe(static_cast<S&&>(s), srcvr<Env>{&link}))
    {}
  };
  template <class S, class Env = h::no_env>
  void run(S s, h::rec& r, policy p = {}, Env e = {}, h::gate* g = nullptr)
  {
    auto* b = new sbox<S, Env>(std::move(s), &r, std::move(e), p);
    b->link.g = g;
    ex::start(b->op);
  }
  policy pick_policy(int n)
  {
    policy p;
    p.brk = mc::choose(n + 1, "break at") - 1;
    p.hop = mc::choose(2, "answer from another thread");
    return p;
  }

  // ---------------------------------------------------------------------------------------------
  // a source under the harness' control: n items one after the other (or all at once), then an end
  template <class Item>
  struct cseq
  {
    using sender_concept = exec::sequence_sender_tag;
    using completion_signatures = ex::completion_signatures<ex::set_value_t(), ex::set_error_t(int), ex::set_stopped_t()>;
    using item_types = exec::item_types<Item>;
    std::array<std::optional<Item>, 3> it;
    int  n;
    chan end = h::VAL;
    int  endval = 0;
    bool par = false;

    template <class R>
    struct op
    {
      struct nrcvr
      {
        using receiver_concept = ex::receiver_t;
        op* o; int i;
        void set_value() noexcept { o->item_done(i, false); }
        void set_stopped() noexcept { o->item_done(i, true); }
        ex::env_of_t<R> get_env() const noexcept { return ex::get_env(o->r); }
      };
      using nop = ex::connect_result_t<exec::next_sender_of_t<R&, Item>, nrcvr>;
      struct slot
      {
        nop o;
        slot(op* p, int i, Item s) : o(ex::connect(exec::set_next(p->r, std::move(s)), nrcvr{p, i})) {}
      };
      R                     r;
      cseq                  s;
      slot*                 ops[3] = {};
      std::atomic<int>      left{0};
      op(R rr, cseq x) : r(std::move(rr)), s(std::move(x)) {}
      op(op&&) = delete;
      void start() & noexcept
      {
        if (!s.par) return next(0);
        left = s.n + 1;
        int n = s.n;
        for (int i = 0; i < n; ++i) ops[i] = new slot(this, i, std::move(*s.it[i]));
        for (int i = 0; i < n; ++i) ex::start(ops[i]->o);
        if (left.fetch_sub(1) == 1) finish(false);
      }
      void next(int i) noexcept
      {
        if (i == s.n) return finish(false);
        ops[i] = new slot(this, i, std::move(*s.it[i]));
        ex::start(ops[i]->o);
      }
      void item_done(int i, bool brk) noexcept
      {
        delete ops[i];
        ops[i] = nullptr;
        if (s.par) { if (left.fetch_sub(1) == 1) finish(false); }
        else if (brk) finish(true);
        else next(i + 1);
      }
      void finish(bool brk) noexcept
      {
        if (brk)
        {
          if (ex::get_stop_token(ex::get_env(r)).stop_requested()) ex::set_stopped(std::move(r));
          else ex::set_value(std::move(r));
        }
        else if (s.end == h::VAL) ex::set_value(std::move(r));
        else if (s.end == h::ERR) ex::set_error(std::move(r), int(s.endval));
        else ex::set_stopped(std::move(r));
      }
    };
    bool thr = false;  // subscribing throws
    template <class R> auto subscribe(R r) && -> op<R> { if (thr) throw h::boom{4}; return op<R>(std::move(r), std::move(*this)); }
    template <class R> auto subscribe(R r) const & -> op<R> { if (thr) throw h::boom{4}; return op<R>(std::move(r), *this); }
  };
  using vseq = cseq<h::src>;
  vseq mk(int n, int base, h::mode m = h::INLINE, int bad = -1, chan badc = h::VAL, chan end = h::VAL, bool par = false)
  {
    vseq s{{}, n, end, base + 9, par};
    for (int i = 0; i < n; ++i) s.it[i].emplace(h::src{i == bad ? badc : h::VAL, base + i, m});
    return s;
  }
  // items that never complete on their own
  using sseq = cseq<h::ssrc>;

  // ---------------------------------------------------------------------------------------------
  constexpr int arr[4] = {1, 2, 3, 4};
  void iterate_()
  {
    int    n = mc::choose(4, "length");
    policy p = pick_policy(n);
    h::rec r;
    run(exec::iterate(std::span<int const>(arr, size_t(n))), r, p);
    mc::join_all();
    int want = p.brk < 0 ? n : p.brk + 1;
    if (!r.is(h::VAL)) mc::fail("ended with %s", r.str().c_str());
    if (n_items() != want) mc::fail("delivered %ld items, expected %d", n_items(), want);
    for (int i = 0; i < want; ++i) MC_CHECK(item_at(i) == code(h::VAL, arr[i]));
  }
  mc::registrar a1{"P23", "iterate", +[] { iterate_(); }, {.preempt = -1}};

  void iterate_stop(bool before)
  {
    int    n = mc::choose(4, "length");
    policy p = pick_policy(n);
    h::rec r;
    {
      h::gate g;
      ex::inplace_stop_source src;
      if (before) src.request_stop();
      run(exec::iterate(std::span<int const>(arr, size_t(n))), r, p, h::stop_env{src.get_token()}, &g);
      if (!before) src.request_stop();
      g.wait();
    }
    mc::join_all();
    int vals = count(h::VAL), stops = count(h::STOP), want = p.brk < 0 ? n : p.brk + 1;
    MC_CHECK(vals + stops == n_items() && vals <= want && stops <= 1);
    for (int i = 0; i < vals; ++i) MC_CHECK(item_at(i) == code(h::VAL, arr[i]));
    if (r.is(h::VAL)) MC_CHECK(vals == want);
    else MC_CHECK(r.is(h::STOP));
    if (before && n) MC_CHECK(r.is(h::STOP) && vals == 0);
    mc::outcome("%s %s", items().c_str(), r.str().c_str());
  }
  mc::registrar a2{"P23", "iterate_stop", +[] { iterate_stop(false); }, {.preempt = -1}};
  mc::registrar a3{"P23", "iterate_stopped_before", +[] { iterate_stop(true); }, {.preempt = -1}};

  // consuming a long sequence inline does not grow the stack with its length
  struct deep_item
  {
    template <class R> struct op {};
  };
  void iterate_deep()
  {
    static long seen, maxd;
    seen = maxd = 0;
    h::rec r;
    auto   s = exec::iterate(std::views::iota(0, 200)) | exec::transform_each(ex::then([](int i) noexcept {
      if (i != seen) mc::fail("item %d delivered as number %ld", i, seen);
      ++seen;
      maxd = std::max(maxd, long(mc::depth()));
    })) | exec::ignore_all_values();
    h::go(std::move(s), r);
    mc::join_all();
    MC_CHECK(r.is(h::VAL) && seen == 200);
    static long d50;
    (void) d50;
    if (maxd > 2000) mc::fail("the stack grew to depth %ld over 200 inline items", maxd);
    mc::note("depth %ld", maxd);
  }
  mc::registrar a4{"P23", "iterate_deep", +[] { iterate_deep(); }, {.preempt = 0}};

  void transform()
  {
    int    n = mc::choose(4, "length"), bad = mc::choose(n + 1, "throws at") - 1;
    policy p = pick_policy(n);
    h::rec r;
    run(exec::iterate(std::span<int const>(arr, size_t(n))) | exec::transform_each(ex::then([=](int x) { if (bad >= 0 && x == arr[bad]) throw h::boom{}; return x + 10; })), r, p);
    mc::join_all();
    int want = n;
    if (p.brk >= 0) want = std::min(want, p.brk + 1);
    if (bad >= 0) want = std::min(want, bad + 1);
    MC_CHECK(r.is(h::VAL) && n_items() == want);
    for (int i = 0; i < want; ++i) MC_CHECK(item_at(i) == (i == bad ? code(h::ERR, 1077) : code(h::VAL, arr[i] + 10)));
  }
  mc::registrar b1{"P23", "transform_each", +[] { transform(); }, {.preempt = -1}};
  // ... passes the ends of its source through
  void transform_end()
  {
    int  n = mc::choose(3, "length");
    auto m = h::pick_mode();
    chan e = h::pick_chan();
    h::rec r;
    run(mk(n, 10, m, -1, h::VAL, e) | exec::transform_each(ex::then([](tv x) { return x.get() + 100; })), r);
    mc::join_all();
    MC_CHECK(n_items() == n);
    for (int i = 0; i < n; ++i) MC_CHECK(item_at(i) == code(h::VAL, 110 + i));
    MC_CHECK(e == h::ERR ? r.is(h::ERR, 19) : r.is(e));
  }
  mc::registrar b2{"P23", "transform_end", +[] { transform_end(); }, {.preempt = -1}};

  void empty()
  {
    h::rec r;
    if (mc::choose(2, "any")) run(exec::empty_sequence(), r);
    else h::go(exec::ignore_all_values(exec::empty_sequence()), r);
    MC_CHECK(r.is(h::VAL) && n_items() == 0);
  }
  mc::registrar b3{"P23", "empty", +[] { empty(); }, {.preempt = -1}};
  // an ordinary sender is a sequence of one item
  void single()
  {
    chan   c = h::pick_chan();
    auto   m = h::pick_mode();
    policy p = pick_policy(1);
    h::rec r;
    run(h::src{c, 5, m}, r, p);
    mc::join_all();
    MC_CHECK(r.is(h::VAL) && n_items() == 1 && item_at(0) == code(c, c == h::STOP ? 0 : 5));
  }
  mc::registrar b4{"P23", "single", +[] { single(); }, {.preempt = -1}};

  // ---------------------------------------------------------------------------------------------
  void ignore(bool par)
  {
    int  n = mc::choose(par ? 3 : 4, "length"), bad = mc::choose(n + 1, "bad item") - 1, bad2 = -1;
    chan bc = bad < 0 ? h::VAL : mc::choose(2, "how") ? h::ERR : h::STOP;
    if (par && bad == 0 && n == 2 && mc::choose(2, "second bad item")) bad2 = 1;
    auto m = h::pick_mode();
    chan e = h::pick_chan();
    auto s = mk(n, 10, m, bad, bc, e, par);
    if (bad2 >= 0) s.it[1]->ch = h::ERR;
    h::rec r;
    h::go(exec::ignore_all_values(std::move(s)), r);
    mc::join_all();
    mc::outcome("%s", r.str().c_str());
    if (bad < 0 || (par && e != h::VAL)) { MC_CHECK(e == h::ERR ? r.is(h::ERR, 19) : r.is(e)); return; }
    bool first = bc == h::STOP ? r.is(h::STOP) : r.is(h::ERR, 10 + bad);
    MC_CHECK(first || (bad2 >= 0 && r.is(h::ERR, 11)));
  }
  mc::registrar c1{"P23", "ignore_all_values", +[] { ignore(false); }, {.preempt = -1}};
  mc::registrar c2{"P23", "ignore_all_values_parallel", +[] { ignore(true); }, {.preempt = -1}};

  // ---------------------------------------------------------------------------------------------
  void merge(bool threads)
  {
    int  na = mc::choose(3, "first length"), nb = mc::choose(3, "second length");
    auto m = threads ? h::REMOTE : h::INLINE;
    chan ea = h::pick_chan(), eb = threads ? h::VAL : h::pick_chan();
    policy p;
    p.hop = !threads && mc::choose(2, "hop");
    h::rec r;
    run(exec::merge(mk(na, 10, m, -1, h::VAL, ea), mk(nb, 30, m, -1, h::VAL, eb)), r, p);
    mc::join_all();
    MC_CHECK(ordered(10, 20) && ordered(30, 40));
    for (int i = 0; i < na; ++i) MC_CHECK(count(h::VAL, 10 + i) == 1);
    for (int i = 0; i < nb; ++i) MC_CHECK(count(h::VAL, 30 + i) == 1);
    MC_CHECK(n_items() == na + nb);
    if (ea == h::VAL && eb == h::VAL) MC_CHECK(r.is(h::VAL));
    else if (ea != h::ERR && eb != h::ERR) MC_CHECK(r.is(h::STOP));
    else MC_CHECK((ea == h::ERR && r.is(h::ERR, 19)) || (eb == h::ERR && r.is(h::ERR, 39)));
    mc::outcome("%s %s", items().c_str(), r.str().c_str());
  }
  mc::registrar d1{"P23", "merge_inline", +[] { merge(false); }, {.preempt = -1}};
  mc::registrar d2{"P23", "merge_threads", +[] { merge(true); }, {.preempt = -1}};

  // a failing or broken-off source stops a source that would otherwise wait forever
  void merge_stops(int how)
  {
    for (auto& x : h::ssrc_state) x = 0;
    int    stops = 0;
    h::rec r;
    {
      h::gate g;
      ex::inplace_stop_source src;
      sseq   b{{}, 1};
      b.it[0].emplace(h::NONE, 50, 0, &stops);
      policy p;
      if (how == 2) p.brk = 0;
      auto a = how == 0 ? mk(1, 10, h::REMOTE, -1, h::VAL, h::ERR) : how == 1 ? mk(1, 10, h::REMOTE, -1, h::VAL, h::STOP) : mk(1, 10, h::REMOTE);
      run(exec::merge(std::move(a), std::move(b)), r, p, h::stop_env{src.get_token()}, &g);
      if (how == 3) src.request_stop();
      g.wait();
    }
    mc::join_all();
    MC_CHECK(stops == 1);
    MC_CHECK(count(h::VAL, 10) == 1 && count(h::STOP) == 1 && n_items() == 2);
    if (how == 0) MC_CHECK(r.is(h::ERR, 19));
    else MC_CHECK(r.is(h::STOP));
  }
  mc::registrar d3{"P23", "merge_error_stops", +[] { merge_stops(0); }, {.preempt = -1}};
  mc::registrar d4{"P23", "merge_stopped_stops", +[] { merge_stops(1); }, {.preempt = -1}};
  mc::registrar d6{"P23", "merge_stop_request", +[] { merge_stops(3); }, {.preempt = -1}};

  // ---------------------------------------------------------------------------------------------
  // sequences of sequences
  template <class Seq>
  struct oitem  // a sender of a sequence
  {
    using sender_concept = ex::sender_t;
    using completion_signatures = ex::completion_signatures<ex::set_value_t(Seq), ex::set_error_t(int), ex::set_stopped_t()>;
    chan    ch;
    int     val;
    h::mode m;
    Seq     s;
    template <class R>
    struct op
    {
      R r; oitem x;
      op(R rr, oitem y) : r(std::move(rr)), x(std::move(y)) {}
      op(op&&) = delete;
      void finish() noexcept
      {
        if (x.ch == h::VAL) ex::set_value(std::move(r), std::move(x.s));
        else if (x.ch == h::ERR) ex::set_error(std::move(r), int(x.val));
        else ex::set_stopped(std::move(r));
      }
      void start() & noexcept
      {
        if (x.m == h::INLINE) finish();
        else std::thread([this] { finish(); }).detach();
      }
    };
    template <class R> auto connect(R r) const -> op<R> { return op<R>(std::move(r), *this); }
  };
  using oseq = cseq<oitem<vseq>>;

  // all orders of lengths without failures
  void each_plain(bool threads)
  {
    int  n = mc::choose(3, "sequences"), len[2] = {};
    bool par = mc::choose(2, "outer in parallel");
    auto m = threads ? h::REMOTE : h::INLINE;
    oseq o{{}, n, h::VAL, 0, par};
    int  total = 0;
    for (int i = 0; i < n; ++i)
    {
      total += len[i] = mc::choose(threads ? 2 : 3, "items");
      o.it[i].emplace(oitem<vseq>{h::VAL, 0, h::INLINE, mk(len[i], 10 + 20 * i, m)});
    }
    policy p;
    p.hop = !threads && mc::choose(2, "hop");
    h::rec r;
    run(exec::merge_each(std::move(o)), r, p);
    mc::join_all();
    MC_CHECK(r.is(h::VAL) && n_items() == total);
    for (int i = 0; i < n; ++i)
    {
      MC_CHECK(ordered(10 + 20 * i, 20 + 20 * i));
      for (int j = 0; j < len[i]; ++j) MC_CHECK(count(h::VAL, 10 + 20 * i + j) == 1);
    }
  }
  mc::registrar e1{"P23", "merge_each_inline", +[] { each_plain(false); }, {.preempt = -1}};
  mc::registrar e2{"P23", "merge_each_threads", +[] { each_plain(true); }, {.preempt = -1}};

  // one fault, anywhere
  enum { ITEM_ERR, ITEM_STOP, SEQ_ERR, SEQ_STOP, OITEM_ERR, OITEM_STOP, OUTER_ERR, OUTER_STOP, NFAULT };
  template <class Env>
  void each_fault(h::mode m, Env env)
  {
    int  f = mc::choose(NFAULT, "fault"), who = f == OUTER_ERR || f == OUTER_STOP ? 0 : mc::choose(2, "in sequence");
    bool par = mc::choose(2, "outer in parallel");
    oseq o{{}, 2, f == OUTER_ERR ? h::ERR : f == OUTER_STOP ? h::STOP : h::VAL, 99, par};
    for (int i = 0; i < 2; ++i)
    {
      bool me = i == who;
      o.it[i].emplace(oitem<vseq>{me && f == OITEM_ERR ? h::ERR : me && f == OITEM_STOP ? h::STOP : h::VAL, 77, m,
                      mk(1, 10 + 20 * i, m, me && f <= ITEM_STOP ? 0 : -1, f == ITEM_ERR ? h::ERR : h::STOP,
                         me && f == SEQ_ERR ? h::ERR : me && f == SEQ_STOP ? h::STOP : h::VAL)});
    }
    h::rec r;
    run(exec::merge_each(std::move(o)), r, policy{}, env);
    mc::join_all();
    mc::outcome("%d: %s %s", f, items().c_str(), r.str().c_str());
    long e = f == ITEM_ERR ? 10 + 20 * who : f == SEQ_ERR ? 19 + 20 * who : f == OITEM_ERR ? 77 : -1;
    if (f == OUTER_ERR) { MC_CHECK(r.is(h::ERR, 99) && count(h::ERR) == 0); return; }
    if (f == OUTER_STOP) { MC_CHECK(r.is(h::STOP) && count(h::ERR) == 0); return; }
    MC_CHECK(r.is(h::VAL));
    if (e >= 0) { MC_CHECK(count(h::ERR) == 1 && count(h::ERR, e) == 1 && item_at(n_items() - 1) == code(h::ERR, e)); }
    else MC_CHECK(count(h::ERR) == 0);
    for (int i = 0; i < 2; ++i)
      if (int c = count(h::VAL, 10 + 20 * i); c > 1) mc::fail("item delivered twice");
    // sequences that the fault does not concern are delivered completely, unless an error stops them
    if (e < 0 && f != OITEM_STOP) MC_CHECK(count(h::VAL, 10 + 20 * (1 - who)) == 1);
    if (f == SEQ_STOP) MC_CHECK(count(h::VAL) == 2);
  }
  mc::registrar e3{"P23", "merge_each_fault_inline", +[] { each_fault(h::INLINE, h::no_env{}); }, {.preempt = -1}};
  mc::registrar e4{"P23", "merge_each_fault_threads", +[] { each_fault(h::REMOTE, h::no_env{}); }, {.preempt = -1}};

  // an error in each of the sequences: the first one counts, and only that
  void each_errors(h::mode m)
  {
    static constexpr int kinds[] = {ITEM_ERR, SEQ_ERR, OITEM_ERR};
    int  f[2] = {kinds[mc::choose(3, "first")], kinds[mc::choose(3, "second")]};
    bool par = mc::choose(2, "outer in parallel");
    oseq o{{}, 2, h::VAL, 99, par};
    long e[2];
    for (int i = 0; i < 2; ++i)
    {
      o.it[i].emplace(oitem<vseq>{f[i] == OITEM_ERR ? h::ERR : h::VAL, 77 + i, m,
                      mk(1, 10 + 20 * i, m, f[i] == ITEM_ERR ? 0 : -1, h::ERR, f[i] == SEQ_ERR ? h::ERR : h::VAL)});
      e[i] = f[i] == ITEM_ERR ? 10 + 20 * i : f[i] == SEQ_ERR ? 19 + 20 * i : 77 + i;
    }
    h::rec r;
    run(exec::merge_each(std::move(o)), r, policy{}, h::no_env{});
    mc::join_all();
    mc::outcome("%d %d: %s %s", f[0], f[1], items().c_str(), r.str().c_str());
    MC_CHECK(r.is(h::VAL) && count(h::ERR) == 1);
    MC_CHECK(count(h::ERR, e[0]) + count(h::ERR, e[1]) == 1 && item_at(n_items() - 1) == code(h::ERR, count(h::ERR, e[0]) ? e[0] : e[1]));
    if (m == h::INLINE && !count(h::ERR, e[0])) mc::fail("the first error was %ld: %s", e[0], items().c_str());
  }
  mc::registrar e14{"P23", "merge_each_errors_inline", +[] { each_errors(h::INLINE); }, {.preempt = -1}};
  mc::registrar e15{"P23", "merge_each_errors_threads", +[] { each_errors(h::REMOTE); }, {.preempt = 3, .max_exec = 40000}, {.preempt = -1, .max_exec = 3000000}};

  // subscribing to a nested sequence throws
  void each_throw()
  {
    auto m = h::pick_mode();
    int  who = mc::choose(2, "in sequence");
    bool par = mc::choose(2, "outer in parallel");
    oseq o{{}, 2, h::VAL, 0, par};
    for (int i = 0; i < 2; ++i)
    {
      auto s = mk(1, 10 + 20 * i, m);
      s.thr = i == who;
      o.it[i].emplace(oitem<vseq>{h::VAL, 0, m, s});
    }
    h::rec r;
    run(exec::merge_each(std::move(o)), r);
    mc::join_all();
    MC_CHECK(r.is(h::VAL) && count(h::ERR) == 1 && count(h::ERR, 1004) == 1 && item_at(n_items() - 1) == code(h::ERR, 1004));
    MC_CHECK(count(h::VAL, 10) + count(h::VAL, 30) <= 1);
  }
  mc::registrar e13{"P23", "merge_each_subscribe_throws", +[] { each_throw(); }, {.preempt = -1}};

  // an error or a stop request stops what would otherwise wait forever
  template <bool Unstoppable = false>
  void each_stops(int how)
  {
    for (auto& x : h::ssrc_state) x = 0;
    int    sa = 0, sb = 0;
    h::rec r;
    {
      h::gate g;
      ex::inplace_stop_source src;
      using iseq = cseq<h::ssrc>;
      cseq<oitem<iseq>> o{{}, 2, h::VAL, 0, true};
      iseq a{{}, 1}, b{{}, 1};
      a.it[0].emplace(how == 0 ? h::ERR : h::NONE, 5, 0, &sa);
      b.it[0].emplace(h::NONE, 6, 1, &sb);
      o.it[0].emplace(oitem<iseq>{how == 1 ? h::ERR : h::VAL, 7, h::REMOTE, a});
      o.it[1].emplace(oitem<iseq>{h::VAL, 8, h::REMOTE, b});
      if (how == 3) src.request_stop();
      if constexpr (Unstoppable) run(exec::merge_each(std::move(o)), r, policy{}, h::no_env{}, &g);
      else run(exec::merge_each(std::move(o)), r, policy{}, h::stop_env{src.get_token()}, &g);
      if (how == 2) src.request_stop();
      g.wait();
    }
    mc::join_all();
    mc::outcome("%s %s", items().c_str(), r.str().c_str());
    if (how == 0) MC_CHECK(r.is(h::VAL) && count(h::ERR, 5) == 1);
    if (how == 1) MC_CHECK(r.is(h::VAL) && count(h::ERR, 7) == 1);
    if (how == 2) MC_CHECK((r.is(h::STOP) || r.is(h::VAL)) && count(h::VAL) == 0);
    if (how == 3) MC_CHECK(r.is(h::STOP) && n_items() == 0);
  }
  mc::registrar e5{"P23", "merge_each_item_error_stops", +[] { each_stops(0); }, {.preempt = 3}, {.preempt = 5}};
  mc::registrar e6{"P23", "merge_each_oitem_error_stops", +[] { each_stops(1); }, {.preempt = 3}, {.preempt = -1, .max_exec = 3000000}};
  mc::registrar e9{"P23", "merge_each_item_error_stops_unstoppable", +[] { each_stops<true>(0); }, {.preempt = 3}, {.preempt = 5}};
  mc::registrar e10{"P23", "merge_each_oitem_error_stops_unstoppable", +[] { each_stops<true>(1); }, {.preempt = 3}, {.preempt = -1, .max_exec = 3000000}};
  // a stop request while the sequence is being started
  void stop_during_start()
  {
    int    k = mc::choose(3, "kind");
    int    x[2] = {10, 11};
    h::rec r;
    {
      h::gate g;
      ex::inplace_stop_source src;
      h::stop_env env{src.get_token()};
      std::thread t([&] {
        oseq o{{}, 1};
        o.it[0].emplace(oitem<vseq>{h::VAL, 0, h::INLINE, mk(1, 10, h::INLINE)});
        if (k == 0) run(exec::merge_each(std::move(o)), r, policy{}, env, &g);
        else if (k == 1) run(exec::merge(mk(1, 10, h::INLINE), mk(1, 11, h::INLINE)), r, policy{}, env, &g);
        else run(exec::iterate(std::span<int>(x)), r, policy{}, env, &g);
      });
      src.request_stop();
      g.wait();
      t.join();
    }
    MC_CHECK(r.is(h::VAL) || r.is(h::STOP));
    if (r.is(h::VAL)) MC_CHECK(n_items() == (k ? 2 : 1));
    mc::outcome("%d %s %s", k, r.str().c_str(), items().c_str());
  }
  mc::registrar e12{"P23", "stop_during_start", +[] { stop_during_start(); }, {.preempt = -1}};
  // a stop source that goes away as soon as the sequence has completed
  struct sfree
  {
    h::rec r;
    bool   keep = false;
    void   fin(chan c) { r.hit(c); if (!keep) src.reset(); }
    std::unique_ptr<ex::inplace_stop_source> src{new ex::inplace_stop_source};
  };
  struct fenv
  {
    sfree* f;
    auto query(ex::get_stop_token_t) const noexcept { return f->src->get_token(); }
  };
  struct frcvr
  {
    using receiver_concept = ex::receiver_t;
    sfree* f;
    template <class Item> auto set_next(Item&& item) & -> next_sndr<std::decay_t<Item>> { return {static_cast<Item&&>(item), policy{}, int(nexts()++)}; }
    void set_value() noexcept { f->fin(h::VAL); }
    template <class E> void set_error(E&&) noexcept { f->fin(h::ERR); }
    void set_stopped() noexcept { f->fin(h::STOP); }
    fenv get_env() const noexcept { return {f}; }
  };
  template <class S>
  void source_gone(S s, int stopped)
  {
    sfree f;
    f.keep = stopped == 2;
    if (stopped == 1) f.src->request_stop();
    {
      auto o = exec::subscribe(std::move(s), frcvr{&f});
      if (stopped == 2) std::thread([&f] { f.src->request_stop(); }).detach();
      ex::start(o);
      mc::join_all();
      MC_CHECK(f.r.n == 1);
      f.src.reset();
    }
    if (stopped) MC_CHECK(f.r.is(h::STOP) || f.r.is(h::VAL));
    else MC_CHECK(f.r.is(h::VAL));
  }
  void gone()
  {
    int  k = mc::choose(4, "kind");
    int  st = mc::choose(3, "stopped: no, before, meanwhile");
    auto m = h::pick_mode();
    auto mo = [&] { oseq o{{}, 1}; o.it[0].emplace(oitem<vseq>{h::VAL, 0, m, mk(1, 10, m)}); return o; };
    int  x[2] = {1, 2};
    if (k == 0) source_gone(exec::merge_each(mo()), st);
    else if (k == 1) source_gone(exec::merge(mk(1, 10, m), mk(1, 30, m)), st);
    else if (k == 2) source_gone(exec::iterate(std::span<int>(x)), st);
    else source_gone(mk(1, 10, m) | exec::transform_each(ex::then([](tv v) { return v.get(); })), st);
  }
  mc::registrar e11{"P23", "stop_source_gone_at_completion", +[] { gone(); }, {.preempt = -1}};
  mc::registrar e7{"P23", "merge_each_stop_request", +[] { each_stops(2); }, {.preempt = 3}, {.preempt = 5}};
  mc::registrar e8{"P23", "merge_each_stopped_before", +[] { each_stops(3); }, {.preempt = -1}};

  // ---------------------------------------------------------------------------------------------
  using any_sigs = ex::completion_signatures<ex::set_value_t(tv), ex::set_error_t(int), ex::set_stopped_t()>;
  using any_rcvr = exec::any_sequence_receiver_ref<any_sigs>;
  using any_seq = any_rcvr::any_sender<>;
  void any()
  {
    int    n = mc::choose(3, "length"), bad = mc::choose(n + 1, "bad item") - 1;
    chan   bc = bad < 0 ? h::VAL : mc::choose(2, "how") ? h::ERR : h::STOP;
    auto   m = h::pick_mode();
    chan   e = h::pick_chan();
    policy p = pick_policy(n);
    h::rec r;
    run(any_seq(mk(n, 10, m, bad, bc, e)), r, p);
    mc::join_all();
    int  want = n;
    bool cut = false;
    if (p.brk >= 0) want = p.brk + 1, cut = true;
    if (bad >= 0 && bad + 1 <= want) want = bad + 1, cut = true;
    MC_CHECK(n_items() == want);
    for (int i = 0; i < want; ++i) MC_CHECK(item_at(i) == (i != bad ? code(h::VAL, 10 + i) : bc == h::ERR ? code(h::ERR, 10 + i) : code(h::STOP, 0)));
    MC_CHECK(cut ? r.is(h::VAL) : e == h::ERR ? r.is(h::ERR, 19) : r.is(e));
  }
  mc::registrar f1{"P23", "any_sequence", +[] { any(); }, {.preempt = -1}};
}
