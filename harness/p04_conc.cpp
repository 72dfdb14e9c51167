// coro::semaphore: conservation of permits and no lost waiter under every interleaving.
#include "hx.hpp"
#include <coro/semaphore.hpp>
#ifndef USERS
#define USERS 2
#endif
#ifndef START
#define START 1
#endif
#ifndef MAX
#define MAX 2
#endif
#ifndef TRY
#define TRY 1
#endif
using SEM = coro::semaphore<MAX>;
static SEM* S;
static int in, got, missed;
static coro::task<void> user(bool tr)
{
    if (tr)
    {
        if (!S->try_acquire()) { missed++; co_return; }
    }
    else
    {
        auto r = co_await S->acquire();
        SYM_ASSERT(r == coro::semaphore_acquire_result::acquired, "acquire reports shutdown without a shutdown");
    }
    in++; got++;
    SYM_ASSERT(in <= START, "more permits are held than were made available");
    SYM_ASSERT(S->value() >= 0 && S->value() <= MAX, "value() out of range");
    sym_yield();
    in--;
    co_await S->release();
}
struct U { sym::flag* f; void operator()() { hx::start(user(TRY && sym::flip()), *f); } };
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        SEM s(START);
        S = &s;
        sym::flag f[USERS];
        sym::thread a(U{&f[0]});
        sym::thread b(U{&f[1]});
#if USERS > 2
        sym::thread c(U{&f[2]});
#endif
        for (auto& x : f) x.wait();
        a.join(); b.join();
#if USERS > 2
        c.join();
#endif
        SYM_ASSERT(got + missed == USERS, "a user was lost or ran twice");
        SYM_ASSERT(s.value() == START, "permits were lost or invented");
        SYM_ASSERT(!s.is_shutdown(), "shut down by itself");
    }
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
