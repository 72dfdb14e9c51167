// coro::invoke: the functor and its arguments live until the task has completed; run once, result delivered.
#include "hx.hpp"
#include <coro/invoke.hpp>
#include <coro/task.hpp>
static hx::counts F, A, B, V;
static int        runs, ended;
struct oops { uint64_t v; };
static hx::gate   G;
static bool       susp, thr, callthrow;
static uint64_t   val;
#ifdef VOID
using R = void;
#define RET co_return
#define GET(x) (co_await (x), val)
#else
using R = hx::tracked;
#define RET co_return hx::tracked(V, cap.value() + a.value() + b)
#define GET(x) (co_await (x)).value()
#endif
static bool outcome(bool ex, uint64_t v)
{
    SYM_ASSERT(ended == 1 && runs == 1, "the awaiter continues before the functor's task has completed");
    SYM_ASSERT(ex == thr || ex == callthrow, "value and exception are confused");
    SYM_ASSERT(v == val, "a different result");
    return true;
}
static int done;
static auto functor(uint64_t x, uint64_t y)
{
    return [cap = hx::tracked(F, x)](hx::tracked a, uint64_t b) -> coro::task<R>
    {
        runs++;
        hx::tracked loc(B, 0);
        cap.check(); a.check();
        if (susp) co_await G;
        SYM_ASSERT(F.alive >= 1, "the functor is destroyed while its task runs");
        cap.check(); a.check(); loc.check();
        ended++;
        if (thr) throw oops{cap.value() + a.value() + b};
        RET;
    };
}
// awaited at once, from a coroutine
static hx::detached direct(uint64_t x, uint64_t y, uint64_t z)
{
    bool ex = false; uint64_t v = 0;
    try { v = GET(coro::invoke(functor(x, y), hx::tracked(A, y), z)); }
    catch (const oops& o) { ex = true; v = o.v; }
    outcome(ex, v);
    SYM_ASSERT(A.copies == 0, "an argument that could be moved is copied");
    SYM_ASSERT(F.alive == 0 && A.alive == 0 && B.alive == 0, "the functor or an argument outlives the awaited task");
    done++;
}
// kept as a task, awaited later from another scope
static hx::detached later(coro::task<R> t)
{
    bool ex = false; uint64_t v = 0;
    try { v = GET(t); }
    catch (const oops& o) { ex = true; v = o.v; }
    outcome(ex, v);
    done++;
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        uint64_t x = sym::u64(), y = sym::u64(), z = sym::u64();
        val  = x + y + z;
        susp = sym::flip(); thr = sym::flip();
        auto how = sym::range(0, 2, 2);
        if (how == 0)
            direct(x, y, z);
        else
        {
            coro::task<R> t;
            {
                auto f = functor(x, y);
                hx::tracked a(A, y);
                uint64_t b = z;
                t = coro::invoke(f, a, b);
                SYM_ASSERT(a.value() == y && b == z, "an argument that was not given away is moved from");
                if (!ended) SYM_ASSERT(F.alive >= 2 && A.alive >= 2, "the functor or an argument is not copied");
                b = 0;
            }
            if (!ended) SYM_ASSERT(F.alive >= 1 && A.alive >= 1, "the functor does not live in the task");
            if (how == 1)
            {
                later(std::move(t));
                SYM_ASSERT(done == (susp ? 0 : 1), "the awaiter continues at the wrong time");
            }
            else // abandoned
            {
                t.destroy();
                SYM_ASSERT(F.alive == 0 && A.alive == 0 && B.alive == 0, "abandoning the task leaks the functor or its arguments");
                sym_reach(3);
                goto out;
            }
        }
        if (susp)
        {
            SYM_ASSERT(done == 0, "the awaiter continues although the functor's task is suspended");
            SYM_ASSERT(F.alive >= 1 && A.alive >= 1 && B.alive == 1, "the functor or an argument is destroyed while the task is suspended");
            G.open();
            sym_reach(2);
        }
        SYM_ASSERT(done == 1 && runs == 1 && ended == 1, "the functor did not run exactly once");
    out:;
    }
    SYM_ASSERT(F.alive == 0 && A.alive == 0 && B.alive == 0 && V.alive == 0, "leaked or destroyed twice");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
