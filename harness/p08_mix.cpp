// coro::queue: buffered elements or suspended consumers, then two operations of any kind on threads (one of them shutdown with STOP).
#include "hx.hpp"
#include <coro/queue.hpp>
#ifndef PRE
#define PRE 2
#endif
using Q = coro::queue<uint64_t>;
static Q*  B;
static int got[8], ngot, nstop, pushed, refused, lastid = -1, outcome[8];
static bool stopping;
static void take(uint64_t v)
{
    uint64_t id = sym_concretize(v);
    SYM_ASSERT(id < 8, "an element was made up");
    SYM_ASSERT(++got[id] == 1, "an element was delivered twice");
    ngot++;
}
static coro::task<void> consumer(int i)
{
    auto r = co_await B->pop();
    SYM_ASSERT(++outcome[i] == 1, "a pop ends twice");
    if (r.has_value()) take(*r);
    else { SYM_ASSERT(stopping && r.error() == coro::queue_consume_result::stopped, "pop returned nothing on a running queue"); nstop++; }
}
static coro::task<void> producer(int id, int how)
{
    uint64_t v = id;
    auto r = how == 0 ? co_await B->push(v) : how == 1 ? co_await B->push(std::move(v)) : co_await B->emplace(v);
    if (r == coro::queue_produce_result::produced) pushed++;
    else { SYM_ASSERT(stopping, "push was refused on a running queue"); refused++; }
}
static coro::task<void> stop() { stopping = true; co_await B->shutdown(); }
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        Q b;
        B = &b;
        sym::flag f[8], g[4];
        int pre = (int)sym_concretize(sym::range(0, PRE)), np = 0, nc = 0;
        bool cons = sym::flip();
        for (int i = 0; i < pre; i++)
            if (cons) { hx::start(consumer(nc), f[nc]); SYM_ASSERT(!f[nc].get(), "pop from an empty queue did not wait"); nc++; }
            else { hx::start(producer(np, i), g[np]); SYM_ASSERT(g[np].get(), "push waits"); np++; }
        int k[2], idc[2], idp[2];
        for (int i = 0; i < 2; i++)
        {
            k[i] = (int)sym_concretize(sym::range(0, 2));
#ifdef STOP
            if (i == 1) k[i] = 3;
#endif
            idc[i] = nc; idp[i] = np;
            if (k[i] == 0) np++;
            else if (k[i] == 1) nc++;
        }
        int how = (int)sym::range(0, 2), tried = 0;
        auto op = [&](int i)
        {
            if (k[i] == 0) hx::start(producer(idp[i], i ? 0 : how), g[idp[i]]);
            else if (k[i] == 1) hx::start(consumer(idc[i]), f[idc[i]]);
            else if (k[i] == 2)
            {
                auto r = B->try_pop();
                if (r.has_value()) { take(*r); tried++; }
                else if (r.error() == coro::queue_consume_result::stopped) SYM_ASSERT(stopping, "try_pop reports stopped on a running queue");
            }
            else { sym::flag x; hx::start(stop(), x); x.wait(); }
        };
        {
            sym::thread a([&] { op(0); });
            sym::thread c([&] { op(1); });
            a.join(); c.join();
        }
        for (int i = 0; i < np; i++) SYM_ASSERT(g[i].get(), "push waits");
        int waiting = 0;
        for (int i = 0; i < nc; i++) waiting += !f[i].get();
        if (!stopping)
        {
            SYM_ASSERT((int)b.size() == pushed - ngot && pushed == np, "size() is not the number of elements buffered");
            SYM_ASSERT(b.empty() || !waiting, "a consumer waits although an element is there for it");
            SYM_ASSERT(ngot == (nc - waiting) + tried, "an element was lost");
        }
        else SYM_ASSERT(!waiting, "a consumer is still suspended after shutdown()");
        if (pre == PRE) sym_reach(1);
        if (!stopping)
        {
            int w = waiting, n0 = np;
            for (int i = 0; i < w; i++) { hx::start(producer(np, 0), g[3]); np++; SYM_ASSERT(g[3].get(), "push waits"); g[3].v = 0; }
            while (!b.empty()) { auto r = b.try_pop(); SYM_ASSERT(r.has_value(), "try_pop fails on an idle queue"); int x = (int)sym_concretize(*r); take(x); if (x < n0) { SYM_ASSERT(x > lastid || k[0] == k[1], "elements are reordered"); lastid = x; } }
            for (int i = 0; i < np; i++) SYM_ASSERT(got[i] == 1, "an element was lost");
        }
    }
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
}
