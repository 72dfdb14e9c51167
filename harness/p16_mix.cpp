// coro::task_group: a suspended awaiter; the last task finishes on one thread while another start() is refused or accepted.
#include "exec.hpp"
#include <coro/task_group.hpp>
static int          finished, awaited, started2;
static bool         refuse;
struct mexec : hx::exec
{
    std::coroutine_handle<> h[4];
    int  n = 0;
    bool resume(std::coroutine_handle<> x) { sym_yield(); if (refuse) return false; h[n++] = x; return true; }
};
static hx::counts C;
static coro::task<void> body(hx::tracked t) { t.check(); finished++; co_return; }
using group = coro::task_group<mexec>;
static hx::detached awaiter(group& g, sym::flag& f)
{
    co_await g;
    SYM_ASSERT(finished >= 1, "co_await group returned while a task started before is unfinished");
    awaited++;
    f.set();
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    mexec e;
    {
        group g(&e);
        SYM_ASSERT(g.start(body(hx::tracked(C, 0))), "start refused");
        int na = (int)sym_concretize(sym::range(0, 2));
        sym::flag f[3];
        for (int i = 0; i < na; i++) { awaiter(g, f[i]); SYM_ASSERT(!f[i].get(), "co_await group returned while a task started before is unfinished"); }
        refuse = sym::flip();
        bool more = sym::flip(), third = sym::flip();
        {
            sym::thread a([&] { e.h[0].resume(); });
            sym::thread b([&] { if (more) started2 = g.start(body(hx::tracked(C, 1))); else if (third) awaiter(g, f[2]); });
            a.join(); b.join();
        }
        if (more) SYM_ASSERT(started2 == !refuse, "start() reports the wrong outcome");
        if (started2) { SYM_ASSERT(g.size() == 1, "size() is not the number of unfinished tasks"); e.h[1].resume(); }
        SYM_ASSERT(g.size() == 0, "size() is not the number of unfinished tasks");
        for (int i = 0; i < na; i++) SYM_ASSERT(f[i].get(), "an awaiter is never resumed");
        if (!more && third) { SYM_ASSERT(f[2].get(), "an awaiter is never resumed"); na++; }
        SYM_ASSERT(awaited == na, "an awaiter is resumed twice");
        SYM_ASSERT(finished == 1 + started2, "a task did not run exactly once");
        if (more && refuse) sym_reach(1);
    }
    SYM_ASSERT(C.alive == 0, "a task is leaked");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
}
