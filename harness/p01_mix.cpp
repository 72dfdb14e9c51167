// coro::mutex: a holder with suspended waiters behind it; its unlock() on one thread, further lock attempts on others.
#include "hx.hpp"
#include <coro/mutex.hpp>
#include <coro/task.hpp>
#ifndef PRE
#define PRE 2
#endif
#ifndef LOCKERS
#define LOCKERS 1
#endif
static coro::mutex* M;
static int in_cs, entered[8], tried;
static void cs(int id)
{
    SYM_ASSERT(++in_cs == 1, "two coroutines hold the mutex");
    SYM_ASSERT(++entered[id] == 1, "a waiter was resumed twice");
    sym_yield();
    SYM_ASSERT(in_cs == 1, "two coroutines hold the mutex");
    in_cs--;
}
static coro::task<void> user(int id, uint64_t how)
{
    if (how == 0) { co_await M->lock(); cs(id); M->unlock(); }
    else if (how == 1) { auto l = co_await M->scoped_lock(); cs(id); }
    else if (M->try_lock()) { cs(id); M->unlock(); }
    else tried++;
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        coro::mutex m;
        M = &m;
        sym::flag f[PRE + LOCKERS];
        SYM_ASSERT(m.try_lock(), "try_lock failed on a free mutex");
        in_cs = 1;
        int pre = (int)sym_concretize(sym::range(0, PRE));
        for (int i = 0; i < pre; i++)
        {
            hx::start(user(i, i & 1), f[i]);
            SYM_ASSERT(!f[i].get(), "a coroutine entered a held mutex");
        }
        {
            sym::thread u([&] { in_cs = 0; m.unlock(); });
            sym::thread a([&] { hx::start(user(PRE, sym::range(0, 2)), f[PRE]); });
#if LOCKERS > 1
            sym::thread b([&] { hx::start(user(PRE + 1, sym::range(0, 2)), f[PRE + 1]); });
            b.join();
#endif
            u.join(); a.join();
            for (int i = 0; i < LOCKERS; i++) f[PRE + i].wait();
        }
        int n = 0;
        for (int i = 0; i < PRE + LOCKERS; i++) n += entered[i];
        for (int i = 0; i < pre; i++) SYM_ASSERT(entered[i] == 1 && f[i].get(), "a waiter was lost");
        SYM_ASSERT(n + tried == pre + LOCKERS, "an operation was lost");
        SYM_ASSERT(m.try_lock(), "the mutex is not free after the last unlock");
        if (pre == PRE) sym_reach(1);
    }
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
}
