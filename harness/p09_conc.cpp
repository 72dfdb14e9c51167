// coro::queue: shutdown and drain racing with producers and consumers.
#include "exec.hpp"
#include <coro/queue.hpp>
#ifndef PER
#define PER 2
#endif
#ifndef PRE
#define PRE 0
#endif
using RB = coro::queue<uint64_t>;
using produce = coro::queue_produce_result;
static RB*                       B;
static std::unique_ptr<hx::exec> X;
static uint64_t                  val[PER + PRE + 1];
static int                       res[PER + PRE + 1], got[PER + PRE + 1], stopped_p, stopped_c;
static volatile int              drained;
static coro::task<void> put(int i)
{
    auto r = co_await B->push((val[i] << 8) | i);
    res[i] = (int)r + 1;
    if (r == produce::stopped) { SYM_ASSERT(B->is_shutdown(), "stopped without a shutdown"); stopped_p++; }
}
static coro::task<void> producer() { for (int i = 0; i < PER; i++) co_await put(i); }
static coro::task<void> consumer()
{
    while (true)
    {
        auto r = co_await B->pop();
        if (!r.has_value())
        {
            SYM_ASSERT(r.error() == coro::queue_consume_result::stopped, "a pop ended with the wrong result");
            SYM_ASSERT(B->is_shutdown(), "stopped without a shutdown");
            stopped_c++;
            break;
        }
        uint64_t id = sym_concretize(*r & 0xff);
        SYM_ASSERT(id < PER + PRE && (*r >> 8) == (val[id] & (~0ull >> 8)), "an element was made up or altered");
        SYM_ASSERT(++got[id] == 1, "an element was delivered twice");
        X->event();
    }
}
static coro::task<void> stop() { co_await B->shutdown(); X->event(); }
static coro::task<void> drain() { co_await B->shutdown_drain(X); drained = 1; X->event(); }
template<coro::task<void>(*F)()> struct T { sym::flag* f; void operator()() { hx::start(F(), *f); } };
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        RB b;
        B = &b;
        X = std::make_unique<hx::exec>();
        for (auto& v : val) v = sym::u64();
        sym::flag f[5];
        for (int i = 0; i < PRE; i++) { hx::start(put(PER + i), f[4]); SYM_ASSERT(f[4].get(), "push suspended"); }
#ifdef PROD
        sym::thread p(T<producer>{&f[0]});
#endif
#ifdef CONS
        sym::thread c(T<consumer>{&f[1]});
#endif
#ifdef STOP
        sym::thread s(T<stop>{&f[2]});
#endif
#ifdef DRAIN
        sym::thread d(T<drain>{&f[3]});
#endif
#ifdef DRAIN
        X->pump(drained);
        f[3].wait(); d.join();
#endif
#ifdef STOP
        f[2].wait(); s.join();
#endif
#ifdef PROD
        f[0].wait();
        p.join();
#endif
#ifdef CONS
        f[1].wait();
        c.join();
#endif
        SYM_ASSERT(b.is_shutdown(), "not shut down");
        for (int i = 0; i < PER + PRE; i++)
        {
            SYM_ASSERT(!got[i] || res[i] == (int)produce::produced + 1, "an element was delivered although its produce was refused");
#if defined(DRAIN) && defined(CONS) && !defined(STOP)
            SYM_ASSERT(got[i] == (res[i] == (int)produce::produced + 1), "a drained buffer lost an element");
#endif
        }
        sym::flag g[2];
        val[PER + PRE] = 1;
        res[PER + PRE] = 0;
        hx::start(put(PER + PRE), g[0]);
        SYM_ASSERT(g[0].get() && res[PER + PRE] == (int)produce::stopped + 1, "produce after shutdown is not refused");
        stopped_c = 0;
        hx::start(consumer(), g[1]);
        SYM_ASSERT(g[1].get() && stopped_c == 1, "pop after shutdown does not report stopped");
        auto t = b.try_pop();
        SYM_ASSERT(!t.has_value() && t.error() == coro::queue_consume_result::stopped, "try_pop after shutdown does not report stopped");
        X.reset();
    }
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    if (stopped_p > 1) sym_reach(2);
    sym_reach(1);
}
