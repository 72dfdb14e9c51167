// coro::condition_variable: waiters and notifiers on several threads; no lost notification, lock held on return.
#include "tex.hpp"
#include <coro/condition_variable.hpp>
#ifndef WAITERS
#define WAITERS 1
#endif
static coro::mutex*              M;
static coro::condition_variable* C;
static std::unique_ptr<hx::tex>  X;
static int                       in_cs, ready, woken, timeouts;
static void cs() { in_cs++; SYM_ASSERT(in_cs == 1, "wait returned without the lock"); sym_yield(); in_cs--; woken++; }
static coro::task<void> waiter()
{
    auto lk = co_await M->scoped_lock();
#if defined(PLAIN)
    while (!ready) co_await C->wait(lk);
    SYM_ASSERT(ready > 0, "woken without a notification");
#elif defined(TIMED)
    if (!co_await C->wait_for(X, lk, std::chrono::seconds(1), [] { return ready > 0; })) timeouts++;
#elif defined(TIMED0)
    if (!ready && co_await C->wait_for(X, lk, std::chrono::seconds(1)) == std::cv_status::timeout) timeouts++;
#else
    co_await C->wait(lk, [] { return ready > 0; });
    SYM_ASSERT(ready > 0, "wait returned while its predicate is false");
#endif
#ifdef TOKENS
    ready--;
#endif
    cs();
}
// makes the predicate true under the lock, then notifies
static coro::task<void> notifier()
{
    { auto lk = co_await M->scoped_lock(); ready++; }
#ifdef ALL
    co_await C->notify_all();
#else
    co_await C->notify_one();
#endif
}
static coro::task<void> idle_notifier()
{
#ifdef ALL
    co_await C->notify_all();
#else
    co_await C->notify_one();
#endif
}
template<coro::task<void>(*F)()> struct T { sym::flag* f; void operator()() { hx::start(F(), *f); } };
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        coro::mutex m;
        coro::condition_variable cv;
        M = &m; C = &cv;
        X = std::make_unique<hx::tex>();
        sym::flag f[5], timer;
        X->on_timer = &timer;
        sym::thread a(T<waiter>{&f[0]});
#if WAITERS > 1
        sym::thread b(T<waiter>{&f[1]});
#endif
        sym::thread c(T<notifier>{&f[2]});
#ifdef NOTIFIERS2
        sym::thread d(T<notifier>{&f[3]});
#endif
#ifdef IDLE
        sym::thread e(T<idle_notifier>{&f[4]});
#endif
#if defined(TIMED) || defined(TIMED0)
        // the main thread is the timer thread
        if (sym::flip()) { sym_yield(); if (timer.get()) X->fire(0); }
#endif
#if WAITERS > 1
        f[1].wait(); b.join();
#endif
        f[0].wait(); f[2].wait();
        a.join(); c.join();
#ifdef NOTIFIERS2
        f[3].wait(); d.join();
#endif
#ifdef IDLE
        f[4].wait(); e.join();
#endif
        SYM_ASSERT(woken == WAITERS, "a waiter was lost or woken twice");
        SYM_ASSERT(m.try_lock(), "the mutex stays locked");
        m.unlock();
        // timers still pending, hooks left behind by timed-out waits
        for (int i = 0; i < X->nt; i++) X->fire(i);
        sym::flag g;
        hx::start(cv.notify_all(), g);
        SYM_ASSERT(g.get(), "notify_all suspended");
        X.reset();
    }
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    if (timeouts) sym_reach(2);
    sym_reach(1);
}
