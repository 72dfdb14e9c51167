// coro::event: suspended waiters, a set() on one thread and another await/set/reset on a second one.
#include "exec.hpp"
#include <coro/event.hpp>
#ifndef PRE
#define PRE 2
#endif
static coro::event* E;
static volatile int set_started;
static int resumed[PRE + 1], order[PRE + 1], n;
static hx::detached waiter(int i)
{
    co_await *E;
    SYM_ASSERT(set_started, "a waiter continued before the event was set");
    SYM_ASSERT(++resumed[i] == 1, "a waiter was resumed twice");
    order[n++] = i;
}
static void set(bool ex, bool fifo)
{
    set_started = 1;
    auto p = fifo ? coro::resume_order_policy::fifo : coro::resume_order_policy::lifo;
    if (ex) { auto x = std::make_unique<hx::inline_exec>(); E->set(x, p); } else E->set(p);
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        coro::event e;
        E = &e;
        int pre = (int)sym_concretize(sym::range(0, PRE));
        for (int i = 0; i < pre; i++) { waiter(i); SYM_ASSERT(!resumed[i], "a waiter continued before the event was set"); }
        bool fifo = sym::flip(), ex = sym::flip();
        int  k = (int)sym_concretize(sym::range(0, 2));
        {
            sym::thread a([&] { set(ex, fifo); });
            sym::thread b([&] { if (k == 0) waiter(PRE); else if (k == 1) set(false, fifo); else e.reset(); });
            a.join(); b.join();
        }
        for (int i = 0; i < pre; i++) SYM_ASSERT(resumed[i] == 1, "a waiter was not resumed exactly once");
        if (k == 0) SYM_ASSERT(resumed[PRE] == 1, "a waiter was not resumed exactly once");
        SYM_ASSERT(e.is_set() || k == 2, "the event is not set after set()");
        int prev = -1;
        for (int i = 0; i < n; i++) if (order[i] < PRE) { SYM_ASSERT(prev < 0 || (fifo ? order[i] > prev : order[i] < prev), "waiters are not resumed in the order asked for"); prev = order[i]; }
        if (pre == PRE) sym_reach(1);
    }
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
}
