// coro::semaphore: two threads, any operations (also releases that nobody acquired): the outcome is that of some order.
#include "hx.hpp"
#include <coro/semaphore.hpp>
#ifndef MAX
#define MAX 2
#endif
#ifndef OPS
#define OPS 1
#endif
using SEM = coro::semaphore<MAX>;
static SEM* S;
static int  k[2][OPS], res[2][OPS];
struct U
{
    sym::flag* f;
    int        t;
    void operator()()
    {
        for (int i = 0; i < OPS; i++)
        {
            if (k[t][i]) res[t][i] = S->try_acquire();
            else { hx::start(S->release(), f[t * OPS + i]); f[t * OPS + i].wait(); }
            auto v = S->value();
            SYM_ASSERT((v >= 0) & (v <= MAX), "value() out of range");
        }
    }
};
// does some interleaving of the two threads' operations give these results?
static bool explain(int v, int a, int b, int end)
{
    if (a == OPS && b == OPS) return v == end;
    for (int t = 0; t < 2; t++)
    {
        int i = t ? b : a;
        if (i == OPS) continue;
        int w = v;
        if (k[t][i]) { if ((v > 0) != res[t][i]) continue; w = v > 0 ? v - 1 : v; }
        else w = v < MAX ? v + 1 : v;
        if (explain(w, a + !t, b + t, end)) return true;
    }
    return false;
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        int v = (int)sym_concretize(sym::range(0, MAX));
        for (auto& x : k) for (auto& y : x) y = (int)sym_concretize(sym::flip());
        SEM s(v);
        S = &s;
        sym::flag f[2 * OPS];
        sym::thread a(U{f, 0}), b(U{f, 1});
        a.join(); b.join();
        SYM_ASSERT(explain(v, 0, 0, (int)s.value()), "the results of concurrent operations match no order of them");
    }
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
