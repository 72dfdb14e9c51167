// Hand-over: WAITERS coroutines queue up behind a holder; each is resumed exactly once, holding the lock.
#include "hx.hpp"
#include <coro/mutex.hpp>
#include <coro/task.hpp>
#ifndef WAITERS
#define WAITERS 4
#endif
static coro::mutex* M;
static int order[WAITERS], n, in_cs;
static coro::task<void> waiter(int id, bool scoped, hx::gate& g)
{
    if (scoped)
    {
        auto l = co_await M->scoped_lock();
        SYM_ASSERT(++in_cs == 1, "two coroutines hold the mutex");
        order[n++] = id;
        co_await g;
        in_cs--;
    }
    else
    {
        co_await M->lock();
        SYM_ASSERT(++in_cs == 1, "two coroutines hold the mutex");
        order[n++] = id;
        co_await g;
        in_cs--;
        M->unlock();
    }
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    coro::mutex m;
    M = &m;
    sym::flag f[WAITERS];
    hx::gate  g[WAITERS];
    int started = 0;
    bool held = sym::flip();
    if (held) { SYM_ASSERT(m.try_lock(), "try_lock failed on a free mutex"); }
    // start and release in any order
    for (int st = 0; st < 2 * WAITERS; st++)
    {
        if (started < WAITERS && (n == 0 || sym::flip() || !g[order[n - 1]].h))
        {
            int before = n;
            bool busy = held || (n > 0 && g[order[n - 1]].h);
            hx::start(waiter(started, sym::flip(), g[started]), f[started]);
            SYM_ASSERT(n == before + (busy ? 0 : 1), "a waiter entered a locked mutex or suspended on a free one");
            started++;
        }
        else if (held && sym::flip()) { held = false; m.unlock(); }
        else if (n > 0 && g[order[n - 1]].h) g[order[n - 1]].open();
    }
    if (held) m.unlock();
    for (int i = 0; i < WAITERS + 1; i++) if (n > 0 && g[order[n - 1]].h) g[order[n - 1]].open();
    SYM_ASSERT(n == started, "a waiter was lost or resumed twice");
    for (int i = 0; i < started; i++) SYM_ASSERT(f[i].get(), "a waiter never finished");
    SYM_ASSERT(m.try_lock(), "the mutex is not free after the last unlock");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
