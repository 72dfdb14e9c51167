// coro::task_group: every sequence of starts, completions and awaits against a model.
#include "exec.hpp"
#include <coro/task_group.hpp>
#ifndef STEPS
#define STEPS 5
#endif
struct gexec : hx::exec
{
    bool refuse = false;
    bool resume(std::coroutine_handle<> h) { return refuse ? false : hx::exec::resume(h); }
};
static hx::counts C;
static int  finished, begun, running;
static hx::gate* gates[STEPS];
static coro::task<void> body(hx::gate& g, hx::tracked t)
{
    begun++;
    co_await g;
    t.check();
    finished++;
    if (sym::flip()) throw 7;
}
static int waiting_done;
static hx::detached awaiter(coro::task_group<gexec>& g, int must)
{
    co_await g;
    SYM_ASSERT(finished >= must, "co_await group returned while a task started before is unfinished");
    SYM_ASSERT(g.empty(), "resumed while the group is not empty");
    waiting_done++;
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        gexec e;
        bool threw = false;
        try { coro::task_group<gexec> bad(static_cast<gexec*>(nullptr)); } catch (const std::runtime_error&) { threw = true; }
        SYM_ASSERT(threw, "a null executor is accepted");
        hx::gate g[STEPS];
        {
            coro::task_group<gexec> tg(&e);
            int started = 0, awaiters = 0, waiting = 0, next = 0;
            for (int i = 0; i < STEPS; i++)
            {
                auto op = sym::range(0, 3, 2);
                if (op == 0)
                {
                    e.refuse = sym::flip();
                    bool ok  = tg.start(body(g[started], hx::tracked(C, 1)));
                    SYM_ASSERT(ok == !e.refuse, "start() reports the wrong outcome");
                    if (ok) started++;
                    SYM_ASSERT(C.alive == started - finished, "a refused task is not destroyed");
                }
                else if (op == 1)
                    e.run();
                else if (op == 2)
                {
                    if (next < begun) { g[next++].open(); }
                }
                else
                {
                    awaiters++;
                    awaiter(tg, started);
                }
                SYM_ASSERT(tg.size() == (size_t)(started - finished), "size() is not the number of unfinished tasks");
                SYM_ASSERT(tg.empty() == (started == finished), "empty()");
                if (started == finished) waiting = 0; else if (op == 3) waiting++;
                SYM_ASSERT(waiting_done == awaiters - waiting, "an awaiter is resumed too early, late or twice");
                SYM_ASSERT(C.alive == started - finished, "a task's frame outlives it or dies early");
            }
            e.run();
            while (next < begun) g[next++].open();
            SYM_ASSERT(begun == started && finished == started, "a task did not run exactly once");
            SYM_ASSERT(waiting_done == awaiters, "an awaiter was lost");
            if (started == 2) sym_reach(2);
        }
    }
    SYM_ASSERT(C.alive == 0 && sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
