// coro::generator: yields in order, ends or throws where the body does, cleans up wherever it is abandoned.
#include "hx.hpp"
#include <ranges>
#include <coro/generator.hpp>
#ifndef MAXY
#define MAXY 3
#endif
#ifndef KIND
#define KIND 0
#endif
static hx::counts A, L, V;
struct oops { uint64_t v; };
static int        at, finished;      // the body's progress: yields done
static uint64_t   n, boom, val[MAXY + 1];
static hx::tracked* Obj[MAXY + 1];
#if KIND == 0
using Y = hx::tracked;
#elif KIND == 1
using Y = hx::tracked&;
#else
using Y = const hx::tracked;
#endif
static coro::generator<Y> body(hx::tracked a)
{
    hx::tracked loc(L, 0);
    for (uint64_t i = 0; i < n; i++)
    {
        if (boom == i) throw oops{val[i]};
        a.check(); loc.check();
        at++;
#if KIND == 0
        if (i & 1) { hx::tracked t(V, val[i]); Obj[i] = &t; co_yield t; t.check(); }
        else co_yield hx::tracked(V, val[i]);
#elif KIND == 1
        co_yield *Obj[i];
#else
        { const hx::tracked t(V, val[i]); Obj[i] = const_cast<hx::tracked*>(&t); co_yield t; }
#endif
    }
    if (boom == n) throw oops{val[n]};
    finished++;
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        hx::counts O;
        std::unique_ptr<hx::tracked> own[MAXY + 1];
        n    = sym_concretize(sym::range(0, MAXY, 3));
        boom = sym_concretize(sym::range(0, MAXY + 1, 3)); // > n: no exception
        sym_assume(boom <= n + 1);
        for (uint64_t i = 0; i <= n; i++)
        {
            val[i] = sym::u64();
#if KIND == 1
            own[i] = std::make_unique<hx::tracked>(O, val[i]);
            Obj[i] = own[i].get();
#endif
        }
        uint64_t stop = sym::range(0, MAXY + 1, 3); // abandon after taking that many
        auto     mv   = sym::range(0, 3, 2);
        {
            coro::generator<Y> g = body(hx::tracked(A, 1));
            SYM_ASSERT(at == 0, "the body starts before it is asked for a value");
            if (mv == 1) { coro::generator<Y> h(std::move(g)); SYM_ASSERT(g.begin() == g.end(), "a moved-from generator yields"); g = std::move(h); }
            else if (mv == 2) { coro::generator<Y> h = body(hx::tracked(A, 2)); h = std::move(g); SYM_ASSERT(A.alive == 1, "move assignment leaks the old generator"); g = std::move(h); }
            else if (mv == 3) { auto& r = g; g = std::move(r); }
            SYM_ASSERT(A.alive == 1, "moving a generator duplicates or loses its frame");
            uint64_t taken = 0;
            bool     ex    = false, ended = false;
            if (stop > 0)
            {
                try
                {
                    auto it = g.begin();
                    while (true)
                    {
                        if (it == g.end()) { ended = true; break; }
                        SYM_ASSERT(at == (int)taken + 1, "the body runs ahead of or behind its consumer");
                        SYM_ASSERT((*it).value() == val[taken], "a value is skipped, repeated or changed");
                        SYM_ASSERT(it->value() == val[taken], "operator->");
#if KIND == 1
                        SYM_ASSERT(&*it == Obj[taken], "a different object than the yielded one");
#else
                        if (KIND != 0 || (taken & 1)) SYM_ASSERT(&*it == Obj[taken], "a different object than the yielded one");
#endif
                        taken++;
                        if (taken == stop) break;
                        if (taken & 1) ++it; else it++;
                    }
                }
                catch (const oops& o)
                {
                    ex = true;
                    SYM_ASSERT(o.v == val[boom], "a different exception");
                }
                if (ended) { SYM_ASSERT(taken == n && boom > n && finished == 1, "the iteration ends early or the exception is lost"); SYM_ASSERT(L.alive == 0, "the locals of a finished body live on"); }
                if (ex) SYM_ASSERT(taken == boom && boom <= n && finished == 0 && L.alive == 0, "the exception is thrown at the wrong place");
                if (!ended && !ex) SYM_ASSERT(taken == stop && L.alive == 1, "the iteration stops");
                if (ended) sym_reach(2);
                if (ex) sym_reach(3);
            }
            else
                SYM_ASSERT(at == 0 && L.alive == 0, "an unused generator runs");
            if (sym::flip()) { g = coro::generator<Y>(); SYM_ASSERT(A.alive == 0 && L.alive == 0 && V.alive == 0, "an abandoned generator is not destroyed"); }
        }
        SYM_ASSERT(A.alive == 0 && L.alive == 0 && V.alive == 0, "an abandoned generator leaks");
        // range-for and ranges
        at = 0; finished = 0; boom = n + 1;
        uint64_t k = 0;
        for (auto& x : body(hx::tracked(A, 3))) { SYM_ASSERT(x.value() == val[k], "range-for"); k++; }
        SYM_ASSERT(k == n && finished == 1, "range-for ends early");
        coro::generator<Y> none;
        SYM_ASSERT(none.begin() == none.end(), "an empty generator yields");
    }
    SYM_ASSERT(A.alive == 0 && L.alive == 0 && V.alive == 0, "destroyed twice or leaked");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
