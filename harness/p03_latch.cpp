// coro::latch under every interleaving, with symbolic count and decrements.
#include "exec.hpp"
#include <coro/latch.hpp>
#ifndef DECS
#define DECS 2
#endif
#ifndef WAITERS
#define WAITERS 1
#endif
static coro::latch* L;
static volatile int64_t started; // decrements begun so far
static int64_t count;
static int resumed;
static hx::detached waiter(sym::flag& f)
{
    co_await *L;
    SYM_ASSERT(started >= count, "a waiter was released before the count was used up");
    resumed++;
    f.set();
}
struct W { sym::flag* f; void operator()() { waiter(*f); } };
struct D { int64_t n; bool ex; void operator()()
{
    started = started + n;
    if (ex) { auto x = std::make_unique<hx::inline_exec>(); L->count_down(x, n); }
    else if (n == 1) L->count_down();
    else L->count_down(n);
} };
extern "C" void sym_main()
{
    int64_t n[DECS];
    for (auto& x : n) { x = (int64_t)sym::range(1, 3); count += x; }
    coro::latch l(count);
    L = &l;
    SYM_ASSERT(!l.is_ready() && l.remaining() == (std::size_t)count, "initial state");
    sym::flag f[WAITERS];
    sym::thread w0(W{&f[0]});
#if WAITERS > 1
    sym::thread w1(W{&f[1]});
#endif
    sym::thread d0(D{n[0], sym::flip()});
    sym::thread d1(D{n[1], false});
#if DECS > 2
    sym::thread d2(D{n[2], false});
#endif
    for (auto& x : f) x.wait();
    w0.join(); d0.join(); d1.join();
#if WAITERS > 1
    w1.join();
#endif
#if DECS > 2
    d2.join();
#endif
    SYM_ASSERT(l.is_ready() && l.remaining() == 0, "final state");
    SYM_ASSERT(resumed == WAITERS, "a waiter was not released exactly once");
    sym_reach(1);
}
