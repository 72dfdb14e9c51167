// coro::event: every sequence of await / set / reset against the specification, including the order of resumption.
#include "exec.hpp"
#include <coro/event.hpp>
#ifndef STEPS
#define STEPS 5
#endif
static int log_[16], nlog;
static hx::detached waiter(coro::event& e, int id)
{
    co_await e;
    log_[nlog++] = id;
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    bool set = sym::flip();
    coro::event e(set);
    SYM_ASSERT(e.is_set() == set, "initial state");
    int wait[16], nw = 0, id = 0;
    for (int st = 0; st < STEPS; st++)
    {
        int op = (int)sym::range(0, 4), before = nlog;
        if (op == 0)
        {
            waiter(e, id);
            if (set) { SYM_ASSERT(nlog == before + 1 && log_[nlog - 1] == id, "awaiting a set event suspended"); }
            else { SYM_ASSERT(nlog == before, "awaiting an unset event did not suspend"); wait[nw++] = id; }
            id++;
        }
        else if (op <= 3)
        {
            bool fifo = sym::flip();
            auto pol  = fifo ? coro::resume_order_policy::fifo : coro::resume_order_policy::lifo;
            if (op == 1 && !fifo) e.set();
            else if (op <= 2) e.set(pol);
            else
            {
                auto x = std::make_unique<hx::exec>();
                e.set(x, pol);
                SYM_ASSERT(x->resumed == (set ? 0 : nw), "set(executor) did not hand over every waiter once");
                SYM_ASSERT(nlog == before, "set(executor) resumed a waiter itself");
                x->run();
            }
            SYM_ASSERT(e.is_set(), "set() does not set");
            SYM_ASSERT(nlog == before + (set ? 0 : nw), "set() resumed the wrong number of waiters");
            if (!set) for (int i = 0; i < nw; i++) SYM_ASSERT(log_[before + i] == (fifo ? wait[i] : wait[nw - 1 - i]), "waiters resumed in the wrong order");
            set = true; nw = 0;
        }
        else
        {
            e.reset();
            set = false;
            SYM_ASSERT(nlog == before, "reset resumed a waiter");
            SYM_ASSERT(!e.is_set(), "reset did not clear the event");
        }
    }
    int before = nlog;
    e.set();
    SYM_ASSERT(nlog == before + nw && nlog == id, "a waiter was lost");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
