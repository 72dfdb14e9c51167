// coro::semaphore: suspended acquires, a release on one thread and any other operation on a second one.
#include "hx.hpp"
#include <coro/semaphore.hpp>
#ifndef PRE
#define PRE 2
#endif
using SEM = coro::semaphore<3>;
static SEM* S;
static int acquired, stopped, released, ends[PRE + 2];
static bool shut;
static coro::task<void> user(int i)
{
    auto r = co_await S->acquire();
    SYM_ASSERT(++ends[i] == 1, "an acquire ends twice");
    if (r == coro::semaphore_acquire_result::acquired) acquired++; else { SYM_ASSERT(S->is_shutdown(), "shutdown reported before shutdown()"); stopped++; }
}
static coro::task<void> rel() { released++; co_await S->release(); }
static coro::task<void> stop() { shut = true; co_await S->shutdown(); }
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        SEM s(0);
        S = &s;
        sym::flag f[PRE + 2], done;
        int pre = (int)sym_concretize(sym::range(0, PRE)), n = pre;
        for (int i = 0; i < pre; i++) { hx::start(user(i), f[i]); SYM_ASSERT(!f[i].get(), "acquire succeeds without a permit"); }
        int k = (int)sym_concretize(sym::range(0, 3));
        if (k == 1) n++;
        {
            sym::thread a([&] { hx::start(rel(), done); });
            sym::thread b([&] {
                sym::flag x;
                if (k == 0) { hx::start(rel(), x); x.wait(); }
                else if (k == 1) hx::start(user(PRE), f[PRE]);
                else if (k == 2) { if (s.try_acquire()) acquired++; }
                else { hx::start(stop(), x); x.wait(); }
            });
            a.join(); b.join();
            done.wait();
        }
        if (k != 3)
        {
            SYM_ASSERT(acquired + (int)s.value() == released, "permits are lost or made up");
            int waiting = n;
            for (int x : ends) waiting -= x;
            SYM_ASSERT(s.value() == 0 || waiting == 0, "an acquire waits although a permit is free");
        }
        else
        {
            SYM_ASSERT(acquired + stopped == n, "an acquire is still suspended after shutdown()");
            SYM_ASSERT(acquired <= released, "more acquisitions than permits");
        }
        if (pre == PRE) sym_reach(1);
    }
    for (int i = 0; i < PRE + 2; i++) SYM_ASSERT(ends[i] <= 1, "an acquire ends twice");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
}
