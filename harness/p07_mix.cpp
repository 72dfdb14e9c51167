// coro::ring_buffer: suspended producers or consumers; shutdown or a notification on one thread, an operation on another.
#include "hx.hpp"
#include <coro/ring_buffer.hpp>
#ifndef CAP
#define CAP 1
#endif
#ifndef WAIT
#define WAIT 2
#endif
using RB = coro::ring_buffer<uint64_t, CAP>;
namespace rr = coro::ring_buffer_result;
static RB* B;
static int got[16], pend[16], cend[16], produced, consumed, pnote, cnote, kind;
static volatile int acting;
static coro::task<void> producer(int id)
{
    auto r = co_await B->produce(id);
    SYM_ASSERT(++pend[id] == 1, "a produce ends twice");
    if (r == rr::produce::produced) produced++;
    else if (r == rr::produce::stopped) SYM_ASSERT(acting && kind == 0, "produce reports stopped on a running buffer");
    else { SYM_ASSERT(acting && kind == 1, "produce reports a notification nobody sent"); pnote++; }
}
static coro::task<void> consumer(int i)
{
    auto r = co_await B->consume();
    SYM_ASSERT(++cend[i] == 1, "a consume ends twice");
    if (r.has_value())
    {
        uint64_t id = sym_concretize(*r);
        SYM_ASSERT(id < 16, "an element was made up");
        SYM_ASSERT(++got[id] == 1, "an element was delivered twice");
        consumed++;
    }
    else if (r.error() == rr::consume::stopped) SYM_ASSERT(acting && kind == 0, "consume reports stopped on a running buffer");
    else { SYM_ASSERT(acting && kind == 2, "consume reports a notification nobody sent"); cnote++; }
}
static coro::task<void> act()
{
    acting = 1;
    if (kind == 0) co_await B->shutdown();
    else if (kind == 1) co_await B->notify_producers();
    else co_await B->notify_consumers();
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        RB b;
        B = &b;
        sym::flag p[16], c[16], done;
        int np = 0, nc = 0;
        int fill = sym_concretize(sym::range(0, CAP)), w = (int)sym_concretize(sym::range(0, WAIT));
        for (int i = 0; i < fill; i++) { hx::start(producer(np), p[np]); np++; }
        if (fill == CAP) for (int i = 0; i < w; i++) { hx::start(producer(np), p[np]); SYM_ASSERT(!p[np].get(), "produce into a full buffer did not wait"); np++; }
        else if (fill == 0) for (int i = 0; i < w; i++) { hx::start(consumer(nc), c[nc]); SYM_ASSERT(!c[nc].get(), "consume from an empty buffer did not wait"); nc++; }
        int wp = fill == CAP ? w : 0, wc = fill == 0 ? w : 0;
        kind = (int)sym_concretize(sym::range(0, 2));
        bool prod = sym::flip();
        int ip = np, ic = nc;
        if (prod) np++; else nc++;
        {
            sym::thread a([&] { hx::start(act(), done); });
            sym::thread d([&] { if (prod) hx::start(producer(ip), p[ip]); else hx::start(consumer(ic), c[ic]); });
            a.join(); d.join();
            done.wait();
        }
        for (int i = 0; i < np; i++) SYM_ASSERT(pend[i] == p[i].get(), "a produce does not finish");
        for (int i = 0; i < nc; i++) SYM_ASSERT(cend[i] == c[i].get(), "a consume does not finish");
        int sp = 0, sc = 0;
        for (int i = 0; i < np; i++) sp += !p[i].get();
        for (int i = 0; i < nc; i++) sc += !c[i].get();
        if (kind == 0) SYM_ASSERT(!sp && !sc, "an operation is still suspended after shutdown()");
        else
        {
            SYM_ASSERT((int)b.size() == produced - consumed, "size() is not the number of elements buffered");
            SYM_ASSERT(!sp || b.full(), "a producer waits although there is room");
            SYM_ASSERT(!sc || b.empty(), "a consumer waits although an element is there for it");
            // those suspended before the notification have ended
            if (kind == 1) for (int i = fill; i < fill + wp; i++) SYM_ASSERT(pend[i] == 1, "notify_producers() left a suspended producer behind");
            if (kind == 2) for (int i = 0; i < wc; i++) SYM_ASSERT(cend[i] == 1, "notify_consumers() left a suspended consumer behind");
        }
        if (w == WAIT && fill == CAP) sym_reach(1);
        if (kind != 0)
        {
            sym::flag x;
            kind = 0;
            hx::start(act(), x);
            SYM_ASSERT(x.get(), "shutdown does not finish");
            for (int i = 0; i < np; i++) SYM_ASSERT(p[i].get(), "an operation is still suspended after shutdown()");
            for (int i = 0; i < nc; i++) SYM_ASSERT(c[i].get(), "an operation is still suspended after shutdown()");
        }
    }
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
}
