// P34: senders over (Boost.)ASIO: completion_token, use_sender, asio_thread_pool
// CONFIGURE: include/exec/asio/asio_config.hpp.in exec/asio/asio_config.hpp STDEXEC_ASIO_USES_BOOST
// FLAGS: -D_GLIBCXX_USE_TBB_PAR_BACKEND=0 -DH_FAULTS=1
// PARTS: 3
#include "common.hpp"
#include "subscription.hpp"
#include <exec/asio/asio_thread_pool.hpp>
#include <exec/asio/use_sender.hpp>
using h::tv;
namespace aio = exec::asio::asio_impl;
using ec_t = exec::asio::error_code;

namespace
{
  // an executor: every function on a thread of its own
  struct texec
  {
    int fail = 0;  // the call of execute() which fails
    template <class F>
    void execute(F&& f) const
    {
      h::quiet q;
      if (fail && mc::ctr(41)++ == fail - 1) throw h::boom{4};
      std::thread([f = std::decay_t<F>(static_cast<F&&>(f))]() mutable { h::ctx_id = 50; f(); }).detach();
    }
    friend bool operator==(texec const &, texec const &) noexcept { return true; }
    friend bool operator!=(texec const &, texec const &) noexcept { return false; }
  };

  enum how
  {
    INLINE_VALUE,      // the handler is invoked by the initiation
    REMOTE_VALUE,      // ... by another thread
    INLINE_DROP,       // the handler is destroyed by the initiation
    REMOTE_DROP,       // ... by another thread
    THROW_FIRST,       // the initiation throws, nothing was started
    THROW_REMOTE_VALUE,// the initiation hands the handler to a thread, and then throws
    THROW_REMOTE_DROP,
    MID_VALUE,         // an intermediate handler on the associated executor invokes the handler
    MID_DROP,          // ... drops it
    MID_THROW,         // ... throws, dropping it
    MID_MID_VALUE,     // an intermediate handler submits another one, which invokes the handler
    MID_MID_THROW,
    MID_REMOTE_THROW,  // the intermediate handler hands the handler to a thread which invokes it, and then throws
    EXEC_THROWS,       // the executor does not take the intermediate handler
    MID_EXEC_THROWS,   // ... does not take the second one
    N_HOW
  };
  struct ops
  {
    how  k;
    int* stage;  // plain: serialized by the operation's lock
    template <class H>
    void operator()(H hd) const
    {
      auto k = this->k;
      auto stage = this->stage;
      auto fin = [](auto& x) { std::move(x)(ec_t(), tv(5)); };
      switch (k)
      {
      case INLINE_VALUE: fin(hd); break;
      case REMOTE_VALUE:
      case THROW_REMOTE_VALUE:
        std::thread([hd = std::move(hd), fin]() mutable { h::ctx_id = 3; fin(hd); }).detach();
        break;
      case INLINE_DROP: { auto x = std::move(hd); } break;
      case REMOTE_DROP:
      case THROW_REMOTE_DROP:
        std::thread([hd = std::move(hd)]() mutable { h::ctx_id = 3; auto x = std::move(hd); }).detach();
        break;
      case THROW_FIRST: break;
      default:
        {
          auto e = aio::get_associated_executor(hd, texec{k == EXEC_THROWS ? 1 : k == MID_EXEC_THROWS ? 2 : 0});
          ++*stage;
          e.execute([hd = std::move(hd), fin, k, stage, e]() mutable {
            ++*stage;
            auto x = std::move(hd);
            switch (k)
            {
            case MID_VALUE: fin(x); break;
            case MID_DROP: break;
            case MID_THROW: { h::quiet q; throw h::boom{2}; }
            case MID_REMOTE_THROW:
              std::thread([x = std::move(x), fin]() mutable { fin(x); }).detach();
              { h::quiet q; throw h::boom{2}; }
            default:
              e.execute([x = std::move(x), fin, k, stage]() mutable {
                ++*stage;
                auto y = std::move(x);
                if (k == MID_MID_THROW) { h::quiet q; throw h::boom{3}; }
                fin(y);
              });
              ++*stage;
            }
          });
          ++*stage;
        }
      }
      if (k == THROW_FIRST || k == THROW_REMOTE_VALUE || k == THROW_REMOTE_DROP) { h::quiet q; throw h::boom{1}; }
    }
  };
  template <class Token>
  auto async_op(how k, int* stage, Token token)
  {
    return aio::async_initiate<Token, void(ec_t, tv)>(ops{k, stage}, token);
  }
  char const * expect(how k)
  {
    switch (k)
    {
    case INLINE_VALUE:
    case REMOTE_VALUE:
    case MID_VALUE:
    case MID_MID_VALUE: return "v:5";
    case INLINE_DROP:
    case REMOTE_DROP:
    case MID_DROP: return "s";
    case THROW_FIRST:
    case THROW_REMOTE_VALUE:
    case THROW_REMOTE_DROP: return "e:1001";
    case MID_THROW: 
    case MID_REMOTE_THROW: return "e:1002";
    case EXEC_THROWS:
    case MID_EXEC_THROWS: return "e:1004";
    default: return "e:1003";
    }
  }
}  // namespace

#if MC_PART == 0
// every way to finish, without a stop token
template <class Token>
static void finish(Token t)
{
  auto    k = how(mc::choose(N_HOW));
  int     stage = 0;
  h::rec  r;
  h::gate g;
  h::go(async_op(k, &stage, t), r, g);
  g.wait();
  mc::join_all();
  MC_CHECK(r.str() == expect(k));
  mc::outcome("%d%s", k, r.str().c_str());
}
MC_SCENARIO(P34, asio_use_sender, {.preempt = -1}) { finish(exec::asio::use_sender); }

// completion_token delivers the error code as a value
MC_SCENARIO(P34, asio_completion_token, {.preempt = -1})
{
  auto    k = how(mc::choose(N_HOW));
  int     stage = 0;
  h::rec  r;
  h::gate g;
  h::go(async_op(k, &stage, exec::asio::completion_token) | ex::then([](ec_t e, tv v) { MC_CHECK(!e); return v; }), r, g);
  g.wait();
  mc::join_all();
  MC_CHECK(r.str() == expect(k));
}
#endif

#if MC_PART == 1
namespace
{
  // A cancellable operation: cancellation makes it end with `ec` (by another thread), unless it ended before.
  //  natural: 0 ends only if cancelled; 1 another thread ends it with a value; 2 an intermediate handler on the
  //  associated executor does; 3 another thread drops the handler
  template <class H>
  struct shared
  {
    H                hd;
    std::atomic<int> state{0};
    int              plain = 0;  // touched by intermediate handlers and by the cancellation handler
    explicit shared(H&& x) : hd(std::move(x)) {}
    bool win() { int e = 0; return state.compare_exchange_strong(e, 1); }
  };
  struct cops
  {
    int natural;
    template <class H>
    void operator()(H hd) const
    {
      auto slot = aio::get_associated_cancellation_slot(hd);
      auto e = aio::get_associated_executor(hd, texec());
      auto s = std::make_shared<shared<H>>(std::move(hd));
      MC_CHECK(slot.is_connected());
      slot.assign([s, natural = natural](aio::cancellation_type t) {
        MC_CHECK(t == aio::cancellation_type::all);
        ++s->plain;
        if (s->plain > (natural == 2 ? 2 : 1)) mc::fail("the operation was cancelled twice");
        if (natural == 2) s->state = 1;  // the intermediate handler comes before the end
        else if (s->win()) std::thread([s] { std::move(s->hd)(ec_t(aio::error::operation_aborted), tv(6)); }).detach();
      });
      switch (natural)
      {
      case 0: break;
      case 1: std::thread([s] { if (s->win()) std::move(s->hd)(ec_t(), tv(5)); }).detach(); break;
      case 2:
        e.execute([s] {
          ++s->plain;
          if (s->win()) std::move(s->hd)(ec_t(), tv(5));
          else std::move(s->hd)(ec_t(aio::error::operation_aborted), tv(6));
        });
        break;
      default: std::thread([s] { if (s->win()) { auto x = std::move(s->hd); } }).detach(); break;
      }
    }
  };
}  // namespace

// request: 1 before the start, 2 by another thread at any time, 3 by the starting thread after the start
template <class Env>
static void cancel(int natural, int request)
{
  h::rec r;
  sub::run<Env>(aio::async_initiate<exec::asio::use_sender_t const &, void(ec_t, tv)>(cops{natural}, exec::asio::use_sender), request, r);
  mc::join_all();
  if (natural == 0 || natural == 3) MC_CHECK(r.is(h::STOP));
  else MC_CHECK(r.is(h::STOP) || r.is(h::VAL, 5));
  mc::outcome("%d%d%s", natural, request, r.str().c_str());
}
MC_SCENARIO(P34, asio_cancel_0, {.preempt = -1}) { cancel<sub::ienv>(0, 1 + mc::choose(3)); }
MC_SCENARIO(P34, asio_cancel_1, {.preempt = 3}, {.preempt = -1}) { cancel<sub::ienv>(1, 1 + mc::choose(3)); }
MC_SCENARIO(P34, asio_cancel_2, {.preempt = 3}, {.preempt = -1}) { cancel<sub::ienv>(2, 1 + mc::choose(3)); }
MC_SCENARIO(P34, asio_cancel_3, {.preempt = 3}, {.preempt = -1}) { cancel<sub::ienv>(3, 1 + mc::choose(3)); }
MC_SCENARIO(P34, asio_cancel_counted_0, {.preempt = -1}) { cancel<sub::cenv>(0, 1 + mc::choose(3)); }
MC_SCENARIO(P34, asio_cancel_counted_1, {.preempt = 3}, {.preempt = 4}) { cancel<sub::cenv>(1 + mc::choose(3), 1 + mc::choose(3)); }

// whichever way an operation ends, a subscription ends before it
template <class Env>
static void ends(int request)
{
  auto   k = how(mc::choose(N_HOW));
  int    stage = 0;
  h::rec r;
  sub::run<Env>(async_op(k, &stage, exec::asio::use_sender), request, r);
  mc::join_all();
  MC_CHECK(r.str() == expect(k));
  mc::outcome("%d%d%s", k, request, r.str().c_str());
}
MC_SCENARIO(P34, asio_ends, {.preempt = 3}, {.preempt = -1}) { ends<sub::ienv>(mc::choose(4)); }
MC_SCENARIO(P34, asio_ends_counted, {.preempt = 3}, {.preempt = 4}) { ends<sub::cenv>(mc::choose(4)); }
#endif

#if MC_PART == 2
// error codes: 0 is success, the cancelled ones mean stopped, everything else is an error carrying the code
namespace
{
  template <class EC>
  struct eops
  {
    EC  ec;
    int remote;
    template <class H>
    void operator()(H hd) const
    {
      if (remote) std::thread([hd = std::move(hd), ec = ec]() mutable { std::move(hd)(ec, 9); }).detach();
      else std::move(hd)(ec, 9);
    }
  };
  template <class EC, class X>
  void error_code(EC ec, bool stops)
  {
    h::rec  r;
    h::gate g;
    bool    lvalue = false;
    long    got = 0;
    auto s = aio::async_initiate<exec::asio::use_sender_t const &, void(EC, int)>(eops<EC>{ec, int(mc::choose(2))}, exec::asio::use_sender);
    h::go(std::move(s) | ex::let_error([&](std::exception_ptr e) {
            try { std::rethrow_exception(e); }
            catch (X const & x) { MC_CHECK(x.code() == ec); got = 1; }
            catch (...) { mc::fail("another exception"); }
            return ex::just_error(3);
          }), r, g);
    g.wait();
    mc::join_all();
    if (!ec) MC_CHECK(r.is(h::VAL, 9));
    else if (stops) MC_CHECK(r.is(h::STOP));
    else MC_CHECK(r.is(h::ERR, 3) && got == 1);
  }
}
MC_SCENARIO(P34, asio_error_codes, {.preempt = -1})
{
  switch (mc::choose(9))
  {
  case 0: error_code<ec_t, exec::asio::system_error>(ec_t(), false); break;
  case 1: error_code<ec_t, exec::asio::system_error>(ec_t(aio::error::operation_aborted), true); break;
  case 2: error_code<ec_t, exec::asio::system_error>(boost::system::errc::make_error_code(boost::system::errc::operation_canceled), true); break;
  case 3: error_code<ec_t, exec::asio::system_error>(ec_t(aio::error::eof), false); break;
  case 4: error_code<ec_t, exec::asio::system_error>(boost::system::errc::make_error_code(boost::system::errc::timed_out), false); break;
  case 5: error_code<std::error_code, std::system_error>(std::error_code(), false); break;
  case 6: error_code<std::error_code, std::system_error>(std::make_error_code(std::errc::operation_canceled), true); break;
  case 7: error_code<std::error_code, std::system_error>(std::error_code(ECANCELED, std::system_category()), true); break;
  default: error_code<std::error_code, std::system_error>(std::make_error_code(std::errc::io_error), false); break;
  }
}

// signatures without an error code, several signatures, no values
MC_SCENARIO(P34, asio_signatures, {.preempt = -1})
{
  h::rec  r;
  h::gate g;
  int     k = mc::choose(4), remote = mc::choose(2);
  auto op = [=]<class H>(H hd) {
    auto f = [k](H& x) {
      if (k == 0) std::move(x)();
      if (k == 1) std::move(x)(tv(1));
      if (k == 2) std::move(x)(ec_t(), 2);
      if (k == 3) std::move(x)(ec_t(aio::error::operation_aborted), 3);
    };
    if (remote) std::thread([f, hd = std::move(hd)]() mutable { f(hd); }).detach();
    else f(hd);
  };
  h::go(aio::async_initiate<exec::asio::use_sender_t const &, void(), void(tv), void(ec_t, int)>(op, exec::asio::use_sender), r, g);
  g.wait();
  mc::join_all();
  MC_CHECK(k == 0 ? r.n == 1 && r.ch == h::VAL && r.nv == 0 : k == 1 ? r.is(h::VAL, 1) : k == 2 ? r.is(h::VAL, 2) : r.is(h::STOP));
}

// values sent in another form than declared are converted first; what that throws is the error.  One completion.
// sends: 0 an rvalue, 1 an lvalue, 2 a const lvalue
MC_SCENARIO(P34, asio_value_faults, {.preempt = -1})
{
  h::rec  r;
  h::gate g;
  int     how = mc::choose(3), remote = mc::choose(2);
  int     fault = mc::choose(4);
  tv      keep(5);
  auto op = [how, remote, &keep, fault]<class H>(H hd) {
    auto f = [how, &keep, fault](H& x) {
      h::throw_at = fault;
      if (how == 0) std::move(x)(static_cast<tv&&>(keep));
      if (how == 1) std::move(x)(keep);
      if (how == 2) std::move(x)(std::as_const(keep));
    };
    if (remote) std::thread([f, hd = std::move(hd)]() mutable { f(hd); }).detach();
    else f(hd);
  };
  auto* b = h::make(aio::async_initiate<exec::asio::completion_token_t const &, void(tv)>(op, exec::asio::completion_token), r);
  b->link.then = [](void* x) noexcept { static_cast<h::gate*>(x)->done(); };
  b->link.then_arg = &g;
  b->start();
  g.wait();
  mc::join_all();
  bool fired = fault && h::throw_at == 0;
  h::throw_at = 0;
  MC_CHECK(fired ? r.is(h::ERR, 1077) : r.is(h::VAL, 5));
  if (how) MC_CHECK(keep.get() == 5);
  if (how && fault == 1) MC_CHECK(fired);
  mc::outcome("%d%d%d", how, fault, fired);
}

// handlers carry the receiver's allocator
namespace
{
  template <class T>
  struct alloc
  {
    using value_type = T;
    int id;
    alloc(int i) : id(i) {}
    template <class U> alloc(alloc<U> const & o) : id(o.id) {}
    T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
    void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
    template <class U> bool operator==(alloc<U> const & o) const { return id == o.id; }
  };
  struct aenv
  {
    alloc<std::byte> a{3};
    alloc<std::byte> query(ex::get_allocator_t) const noexcept { return a; }
  };
}
MC_SCENARIO(P34, asio_allocator, {.preempt = -1})
{
  h::rec r;
  auto op = []<class H>(H hd) { int id = aio::get_associated_allocator(hd).id; std::move(hd)(id); };
  h::go(aio::async_initiate<exec::asio::use_sender_t const &, void(int)>(op, exec::asio::use_sender), r, aenv());
  MC_CHECK(r.is(h::VAL, 3));
}

// two parallel paths, one of which throws: the operation ends when both have, with the exception
MC_SCENARIO(P34, asio_parallel, {.preempt = -1})
{
  h::rec  r;
  h::gate g;
  int     thrower = mc::choose(4);  // bit i: path i throws
  int     ran = 0, first = -1;
  auto op = [thrower, &ran, &first]<class H>(H hd) {
    h::quiet q;
    auto s = std::make_shared<H>(std::move(hd));
    auto e = aio::get_associated_executor(*s, texec());
    for (int i = 0; i < 2; ++i)
      e.execute([s = i ? std::move(s) : s, i, thrower, &ran, &first]() mutable {
        ++ran;  // plain
        auto x = std::move(s);
        if (thrower >> i & 1) { h::quiet q; if (first < 0) first = i; throw h::boom{i}; }
      });
  };
  h::go(aio::async_initiate<exec::asio::use_sender_t const &, void()>(op, exec::asio::use_sender), r, g);
  g.wait();
  mc::join_all();
  MC_CHECK(ran == 2);
  if (!thrower) MC_CHECK(r.is(h::STOP));
  else MC_CHECK(r.is(h::ERR, 1000 + first));
  mc::outcome("%d%s", thrower, r.str().c_str());
}

// the sender may be connected more than once
MC_SCENARIO(P34, asio_multi_shot, {.preempt = -1})
{
  h::rec  a, b;
  h::gate g(2);
  int     st = 0, su = 0;
  auto    s = async_op(REMOTE_VALUE, &st, exec::asio::use_sender);
  h::go(s, a, g);
  h::go(std::move(s), b, g);
  g.wait();
  mc::join_all();
  MC_CHECK(a.is(h::VAL, 5) && b.is(h::VAL, 5));
}

// posting to ASIO's pool
MC_SCENARIO(P34, asio_post, {.preempt = 2}, {.preempt = 3})
{
  h::rec r;
  {
    aio::thread_pool p(1);
    h::gate g(1);
    h::go(aio::post(p.get_executor(), exec::asio::use_sender) | ex::then([] { return 4; }), r, g);
    g.wait();
    p.join();
  }
  MC_CHECK(r.is(h::VAL, 4) && r.tid != 0);
}
// a pool which ends without running what was posted: stopped
MC_SCENARIO(P34, asio_abandoned, {.preempt = 2}, {.preempt = 3})
{
  h::rec  r;
  h::gate g(1);
  {
    aio::thread_pool p(1);
    p.stop();
    h::go(aio::post(p.get_executor(), exec::asio::use_sender) | ex::then([] { return 4; }), r, g);
  }
  g.wait();
  MC_CHECK(r.is(h::STOP) || r.is(h::VAL, 4));
  mc::outcome("%s", r.str().c_str());
}
// an operation of an I/O context that never runs
MC_SCENARIO(P34, asio_context, {.preempt = -1})
{
  h::rec  r, q;
  {
    aio::io_context c;
    h::go(aio::post(c.get_executor(), exec::asio::use_sender) | ex::then([] { return 4; }), r);
    MC_CHECK(r.n == 0);
    if (mc::choose(2)) { c.run(); MC_CHECK(r.is(h::VAL, 4)); c.restart(); }
    h::go(aio::defer(c.get_executor(), exec::asio::use_sender), q);
    MC_CHECK(q.n == 0);
  }
  MC_CHECK(r.n == 1 && q.is(h::STOP));
}
#endif
