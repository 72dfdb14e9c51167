// coro::semaphore: every sequence of acquire / try_acquire / release / shutdown against a counter and a set of waiters.
#include "hx.hpp"
#include <coro/semaphore.hpp>
#ifndef STEPS
#define STEPS 5
#endif
static int acq, shut;
template<typename S> static coro::task<void> user(S& s)
{
    auto r = co_await s.acquire();
    if (r == coro::semaphore_acquire_result::acquired) acq++; else shut++;
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        constexpr int MAX = 2;
        using SEM = coro::semaphore<MAX>;
        int v = (int)sym::range(0, MAX), w = 0, a = 0, t = 0;
        SEM s(v);
        bool down = false;
        SYM_ASSERT(SEM::max() == MAX, "max()");
        sym::flag f[STEPS + 1];
        for (int st = 0; st < STEPS; st++)
        {
            int op = (int)sym::range(0, 3);
            if (op == 0)
            {
                hx::start(user(s), f[st]);
                if (down) t++; else if (v > 0) { v--; a++; } else w++;
            }
            else if (op == 1)
            {
                sym_assume(!down);
                bool ok = s.try_acquire();
                SYM_ASSERT(ok == (v > 0), "try_acquire result");
                if (ok) v--;
            }
            else if (op == 2)
            {
                hx::start(s.release(), f[st]);
                SYM_ASSERT(f[st].get(), "release() suspended");
                if (w > 0) { w--; a++; } else if (v < MAX) v++;
            }
            else
            {
                hx::start(s.shutdown(), f[st]);
                SYM_ASSERT(f[st].get() && s.is_shutdown(), "shutdown()");
                down = true; t += w; w = 0;
            }
            SYM_ASSERT(s.value() == v, "value() is not the number of free permits");
            SYM_ASSERT(acq == a && shut == t, "a waiter was woken at the wrong time or with the wrong result");
        }
        if (w) sym_reach(2);
    }
    SYM_ASSERT(sym_live_heap() == base, "leaked memory (or a waiter was never resumed)");
    sym_reach(1);
}
