// coro::ring_buffer: a buffer in any state of filling with suspended producers or consumers; two operations of any kind on threads.
#include "hx.hpp"
#include <coro/ring_buffer.hpp>
#ifndef CAP
#define CAP 2
#endif
#ifndef WAIT
#define WAIT 1
#endif
#ifndef THREADS
#define THREADS 2
#endif
using RB = coro::ring_buffer<uint64_t, CAP>;
static RB*      B;
static int      put, got[16], cdone, pdone, nput;
static bool     first = true;
static uint64_t firstid;
static coro::task<void> producer(int id)
{
    auto r = co_await B->produce(id);
    SYM_ASSERT(r == coro::ring_buffer_result::produce::produced, "produce was refused");
    pdone++;
}
static coro::task<void> consumer()
{
    auto r = co_await B->consume();
    SYM_ASSERT(r.has_value(), "consume returned nothing on a running buffer");
    uint64_t id = sym_concretize(*r);
    SYM_ASSERT(id < 16, "an element was made up");
    SYM_ASSERT(++got[id] == 1, "an element was delivered twice");
    cdone++;
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        RB b;
        B = &b;
        sym::flag f[16];
        // the initial state
        int turn = sym_concretize(sym::range(0, CAP - 1)); // start anywhere in the array
        int id = 0, prods = 0, conss = 0;
        for (int i = 0; i < turn; i++) { hx::start(producer(id++), f[prods + conss]); prods++; hx::start(consumer(), f[prods + conss]); conss++; }
        int fill = sym_concretize(sym::range(0, CAP));
        for (int i = 0; i < fill; i++) { hx::start(producer(id++), f[prods + conss]); prods++; }
        SYM_ASSERT(b.size() == (size_t)fill, "size() is wrong");
        int w = (int)sym_concretize(sym::range(0, WAIT));
        if (fill == CAP) for (int i = 0; i < w; i++) { hx::start(producer(id++), f[prods + conss]); SYM_ASSERT(!f[prods + conss].get(), "produce into a full buffer did not wait"); prods++; }
        else if (fill == 0) for (int i = 0; i < w; i++) { hx::start(consumer(), f[prods + conss]); SYM_ASSERT(!f[prods + conss].get(), "consume from an empty buffer did not wait"); conss++; }
        {
            int n0 = prods + conss, k[2], i0 = id;
            for (int i = 0; i < THREADS; i++) { k[i] = sym::flip(); if (k[i]) prods++; else conss++; if (k[i]) id++; }
            auto op = [&](int i) { if (k[i]) hx::start(producer(i ? i0 + k[0] : i0), f[n0 + i]); else hx::start(consumer(), f[n0 + i]); };
            sym::thread a([&] { op(0); });
#if THREADS > 1
            sym::thread c([&] { op(1); });
            c.join();
#endif
            a.join();
        }
        // everything is at rest: an operation is suspended only if nothing can be done for it
        int wantc = conss < prods ? conss : prods;                    // consumers that can be served
        int wantp = prods < conss + CAP ? prods : conss + CAP;        // producers that can be served
        SYM_ASSERT(cdone == wantc, "a consumer waits although an element is there for it");
        SYM_ASSERT(pdone == wantp, "a producer waits although there is room");
        SYM_ASSERT(b.size() == (size_t)(pdone - cdone), "size() is not the number of elements buffered");
        if (w == WAIT) sym_reach(1);
        // take or add what is left
        while (pdone + cdone < prods + conss) { if (cdone < conss) { hx::start(producer(id++), f[prods + conss]); prods++; } else { hx::start(consumer(), f[prods + conss]); conss++; } }
        while (cdone < pdone) { hx::start(consumer(), f[prods + conss]); conss++; }
        for (int i = 0; i < id; i++) SYM_ASSERT(got[i] == 1, "an element was lost");
        SYM_ASSERT(b.empty(), "elements remain");
    }
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
}
