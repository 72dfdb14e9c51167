// coro::event: waiters, setters and a resetter race; every waiter is resumed exactly once and only after a set().
#include "exec.hpp"
#include <coro/event.hpp>
#ifndef WAITERS
#define WAITERS 2
#endif
#ifndef SETTERS
#define SETTERS 1
#endif
#ifndef RESET
#define RESET 0
#endif
static coro::event* E;
static volatile int set_started;
static int resumed[WAITERS];
static hx::detached waiter(int i, sym::flag& f)
{
    co_await *E;
    SYM_ASSERT(set_started, "a waiter continued before the event was set");
    SYM_ASSERT(++resumed[i] == 1, "a waiter was resumed twice");
    f.set();
}
struct W { int i; sym::flag* f; void operator()() { waiter(i, *f); } };
struct S { int k; void operator()()
{
    set_started = 1;
    if (k == 1) { auto x = std::make_unique<hx::inline_exec>(); E->set(x, sym::flip() ? coro::resume_order_policy::fifo : coro::resume_order_policy::lifo); }
    else E->set(sym::flip() ? coro::resume_order_policy::fifo : coro::resume_order_policy::lifo);
} };
struct R { void operator()() { E->reset(); } };
extern "C" void sym_main()
{
    coro::event e;
    E = &e;
    sym::flag f[WAITERS];
    sym::thread w0(W{0, &f[0]});
#if WAITERS > 1
    sym::thread w1(W{1, &f[1]});
#endif
#if WAITERS > 2
    sym::thread w2(W{2, &f[2]});
#endif
    sym::thread s0(S{(int)sym::flip()});
#if SETTERS > 1
    sym::thread s1(S{0});
#endif
#if RESET
    sym::thread r(R{});
    r.join();
    s0.join();
    if (!e.is_set()) sym_reach(2);
    S{0}(); // a reset after the last set may leave waiters registered: a further set releases them
#endif
    for (auto& x : f) x.wait();
    s0.join(); w0.join();
#if WAITERS > 1
    w1.join();
#endif
#if WAITERS > 2
    w2.join();
#endif
#if SETTERS > 1
    s1.join();
#endif
#if !RESET
    SYM_ASSERT(e.is_set(), "the event is not set after set()");
#endif
    for (int x : resumed) SYM_ASSERT(x == 1, "a waiter was not resumed exactly once");
    sym_reach(1);
}
