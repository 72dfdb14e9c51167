// coro::ring_buffer: producers and consumers on several threads; nothing lost, duplicated, or reordered.
#include "hx.hpp"
#include <coro/ring_buffer.hpp>
#ifndef CAP
#define CAP 1
#endif
#ifndef PRODS
#define PRODS 1
#endif
#ifndef CONS
#define CONS 1
#endif
#ifndef PER
#define PER 2
#endif
#define TOTAL (PRODS * PER)
using RB = coro::ring_buffer<uint64_t, CAP>;
static RB*      B;
static uint64_t val[TOTAL];
static int      got[TOTAL], lastof[PRODS][CONS], ngot;
static coro::task<void> producer(int p)
{
    for (int i = 0; i < PER; i++)
    {
        auto r = co_await B->produce((val[p * PER + i] << 8) | (p * PER + i));
        SYM_ASSERT(r == coro::ring_buffer_result::produce::produced, "produce was refused");
    }
}
static coro::task<void> consumer(int c)
{
    for (int i = 0; i < TOTAL / CONS; i++)
    {
        auto r = co_await B->consume();
        SYM_ASSERT(r.has_value(), "consume returned nothing on a running buffer");
        uint64_t id = sym_concretize(*r & 0xff);
        SYM_ASSERT(id < TOTAL, "an element was made up");
        SYM_ASSERT((*r >> 8) == (val[id] & (~0ull >> 8)), "an element was altered");
        got[id]++;
        SYM_ASSERT(got[id] == 1, "an element was delivered twice");
        int p = id / PER;
        SYM_ASSERT(lastof[p][c] <= (int)id, "elements of one producer reached one consumer out of order");
        lastof[p][c] = id;
        ngot++;
    }
}
template<coro::task<void>(*F)(int)> struct T { sym::flag* f; int i; void operator()() { hx::start(F(i), *f); } };
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        RB b;
        B = &b;
        for (auto& v : val) v = sym::u64();
        sym::flag f[4];
        sym::thread p0(T<producer>{&f[0], 0});
        sym::thread c0(T<consumer>{&f[1], 0});
#if PRODS > 1
        sym::thread p1(T<producer>{&f[2], 1});
        f[2].wait(); p1.join();
#endif
#if CONS > 1
        sym::thread c1(T<consumer>{&f[3], 1});
        f[3].wait(); c1.join();
#endif
        f[0].wait(); f[1].wait();
        p0.join(); c0.join();
        SYM_ASSERT(ngot == TOTAL, "an element was lost");
        SYM_ASSERT(b.empty() && b.size() == 0, "elements remain");
    }
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
