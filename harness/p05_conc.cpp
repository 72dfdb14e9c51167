// coro::shared_mutex: readers and writers from several threads; exclusion, no lost waiter, free at the end.
#include "exec.hpp"
#include <coro/shared_mutex.hpp>
#ifndef THREADS
#define THREADS 2
#endif
#ifndef ROUNDS
#define ROUNDS 1
#endif
#ifndef OPS
#define OPS 4
#endif
using E  = hx::inline_exec;
using SM = coro::shared_mutex<E>;
static SM*      M;
static int      readers, writers, entered, skipped, together;
static uint64_t last;
static void     as_writer(uint64_t v)
{
    writers++;
    SYM_ASSERT(writers == 1 && readers == 0, "a writer shares the lock");
    last = v;
    sym_yield();
    SYM_ASSERT(last == v, "another coroutine wrote inside the exclusive section");
    writers--;
    entered++;
}
static void as_reader()
{
    readers++;
    SYM_ASSERT(writers == 0, "a reader and a writer hold the lock together");
    uint64_t v = last;
    if (readers > 1) together = 1;
    sym_yield();
    SYM_ASSERT(last == v, "a writer wrote while the lock was held shared");
    readers--;
    entered++;
}
static coro::task<void> wtask(uint64_t v) { as_writer(v); co_return; }
static coro::task<void> rtask() { as_reader(); co_return; }
static coro::task<void> op(uint64_t k, uint64_t v)
{
    if (k == 0) { co_await M->lock(); as_writer(v); co_await M->unlock(); }
    else if (k == 1) { co_await M->lock_shared(); as_reader(); co_await M->unlock_shared(); }
    else if (k == 2)
    {
        if (M->try_lock()) { as_writer(v); co_await M->unlock(); } else skipped++;
    }
    else if (k == 3)
    {
        if (M->try_lock_shared()) { as_reader(); co_await M->unlock_shared(); } else skipped++;
    }
    else if (k == 4) co_await M->scoped_lock(wtask(v));
    else co_await M->scoped_lock_shared(rtask());
}
static coro::task<void> worker()
{
    for (int r = 0; r < ROUNDS; r++) co_await op(
#ifdef BASE_OP
        BASE_OP +
#endif
        sym::range(0, OPS - 1), sym::u64());
}
struct run { sym::flag* f; void operator()() { hx::start(worker(), *f); } };
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        std::unique_ptr<E> e = std::make_unique<E>();
        SM m(e);
        M = &m;
        sym::flag f[THREADS];
        {
            sym::thread a(run{&f[0]});
            sym::thread b(run{&f[1]});
#if THREADS > 2
            sym::thread c(run{&f[2]});
#endif
            for (auto& x : f) x.wait();
            a.join(); b.join();
#if THREADS > 2
            c.join();
#endif
        }
        SYM_ASSERT(entered + skipped == THREADS * ROUNDS, "an operation was lost or ran twice");
        SYM_ASSERT(m.try_lock(), "the lock is not free after the last unlock");
        SYM_ASSERT(!m.try_lock_shared(), "try_lock_shared succeeded on an exclusively held lock");
        sym::flag g;
        hx::start(m.unlock(), g);
        SYM_ASSERT(g.get(), "unlock suspended on an idle lock");
        SYM_ASSERT(m.try_lock_shared() && m.try_lock_shared(), "unlock did not free the lock");
        SYM_ASSERT(!m.try_lock(), "try_lock succeeded on a lock held shared");
    }
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    if (together) sym_reach(2);
    sym_reach(1);
}
