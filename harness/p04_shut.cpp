// coro::semaphore: shutdown racing with acquire and release wakes every waiter exactly once.
#include "hx.hpp"
#include <coro/semaphore.hpp>
using SEM = coro::semaphore<2>;
static SEM* S;
static int acquired, stopped;
static coro::task<void> user()
{
    auto r = co_await S->acquire();
    if (r == coro::semaphore_acquire_result::acquired) acquired++; else { SYM_ASSERT(S->is_shutdown(), "shutdown reported before shutdown()"); stopped++; }
}
static coro::task<void> rel() { co_await S->release(); }
static coro::task<void> stop() { co_await S->shutdown(); }
template<coro::task<void>(*F)()> struct T { sym::flag* f; void operator()() { hx::start(F(), *f); } };
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        SEM s(sym::flip());
        bool one = s.value() == 1;
        S = &s;
        sym::flag f[4];
        sym::thread a(T<user>{&f[0]});
        sym::thread c(T<stop>{&f[2]});
#ifdef USERS2
        sym::thread b(T<user>{&f[1]});
        f[1].wait();
        b.join();
#endif
#ifdef REL
        sym::thread d(T<rel>{&f[3]});
        f[3].wait(); d.join();
#endif
        f[0].wait(); f[2].wait();
        a.join(); c.join();
        SYM_ASSERT(acquired + stopped == 1
#ifdef USERS2
            + 1
#endif
            , "an acquire was resumed twice or never");
        SYM_ASSERT(acquired <= one
#ifdef REL
            + 1
#endif
            , "more acquisitions than permits");
        SYM_ASSERT(s.is_shutdown(), "not shut down");
        sym::flag g;
        hx::start(user(), g);
        SYM_ASSERT(g.get(), "acquire after shutdown suspended");
        if (stopped == 2) sym_reach(2);
    }
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
