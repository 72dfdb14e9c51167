// coro::latch: any 64-bit initial count, any decrements (sequence), remaining() and readiness against the specification.
#include "exec.hpp"
#include <coro/latch.hpp>
#ifndef STEPS
#define STEPS 4
#endif
#ifndef BITS
#define BITS 64
#endif
static int resumed;
static hx::detached waiter(coro::latch& l) { co_await l; resumed++; }
extern "C" void sym_main()
{
    int64_t count = (int64_t)sym::u64();
    coro::latch l(count);
    int64_t left = count;
    bool ready = left <= 0;
    int waiters = 0;
    for (int i = 0; i < STEPS; i++)
    {
        SYM_ASSERT(l.is_ready() == ready, "is_ready() does not say whether the count is used up");
        if (left >= 0) SYM_ASSERT(l.remaining() == (std::size_t)left, "remaining() is not the count minus the decrements");
        SYM_ASSERT(resumed == (ready ? waiters : 0), "waiters released at the wrong time");
        if (sym::flip())
        {
            waiter(l);
            waiters++;
        }
        else
        {
            int64_t n = (int64_t)sym_input(BITS);
            sym_assume((n >= 1) & (n <= (1ll << 60)) & (left >= -(1ll << 62))); // may count down past zero, the counter does not overflow
            bool ex = sym::flip();
            if (ex) { auto x = std::make_unique<hx::exec>(); l.count_down(x, n); x->run(); }
            else l.count_down(n);
            left -= n;
            if (left <= 0) ready = true;
        }
    }
    SYM_ASSERT(l.is_ready() == ready, "is_ready() does not say whether the count is used up");
    SYM_ASSERT(resumed == (ready ? waiters : 0), "waiters released at the wrong time");
    if (!ready && left > 0) { l.count_down(left); SYM_ASSERT(resumed == waiters, "a waiter was lost"); }
    sym_reach(1);
}
