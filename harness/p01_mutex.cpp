// coro::mutex: mutual exclusion, hand-over, no lost waiter.
#include "hx.hpp"
#include <coro/mutex.hpp>
#include <coro/task.hpp>
#ifndef THREADS
#define THREADS 2
#endif
#ifndef ROUNDS
#define ROUNDS 1
#endif
#ifndef OPS
#define OPS 3
#endif
static coro::mutex* M;
static int      in_cs, entered, skipped;
static uint64_t last;
static void enter(uint64_t v)
{
    in_cs++;
    SYM_ASSERT(in_cs == 1, "two coroutines hold the mutex");
    last = v;
    sym_yield();
    SYM_ASSERT(last == v, "another coroutine wrote inside the critical section");
    in_cs--;
    entered++;
}
static coro::task<void> op(uint64_t k, uint64_t v)
{
    if (k == 0)
    {
        co_await M->lock();
        enter(v);
        M->unlock();
    }
    else if (k == 1)
    {
        auto l = co_await M->scoped_lock();
        enter(v);
    }
    else
    {
        if (M->try_lock())
        {
            enter(v);
            M->unlock();
        }
        else
            skipped++;
    }
}
static coro::task<void> worker()
{
    for (int r = 0; r < ROUNDS; r++)
        co_await op(OPS > 1 ? sym::range(0, OPS - 1) : 0, sym::u64());
}
struct run { sym::flag* f; void operator()() { hx::start(worker(), *f); } };
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        coro::mutex m;
        M = &m;
        sym::flag f[THREADS];
        {
            sym::thread a(run{&f[0]});
            sym::thread b(run{&f[1]});
#if THREADS > 2
            sym::thread c(run{&f[2]});
#endif
            for (auto& x : f) x.wait();
            a.join(); b.join();
#if THREADS > 2
            c.join();
#endif
        }
        SYM_ASSERT(entered + skipped == THREADS * ROUNDS, "an operation was lost or ran twice");
        SYM_ASSERT(m.try_lock(), "the mutex is not free after the last unlock");
        SYM_ASSERT(!m.try_lock(), "try_lock succeeded on a locked mutex");
        m.unlock();
        SYM_ASSERT(m.try_lock(), "unlock did not free the mutex");
    }
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    if (skipped) sym_reach(2);
    sym_reach(1);
}
