// coro::condition_variable: notifications that find the predicate false, racing with each other and with a new waiter,
// leave every waiter on the list.
#include "tex.hpp"
#include <coro/condition_variable.hpp>
#ifndef TIMED
#define TIMED 0
#endif
static coro::mutex*              M;
static coro::condition_variable* C;
static std::unique_ptr<hx::tex>  X;
static int                       ready, woken;
static coro::task<void> waiter()
{
    auto lk = co_await M->scoped_lock();
    if (TIMED) { bool r = co_await C->wait_for(X, lk, std::chrono::seconds(1), [] { return ready > 0; }); SYM_ASSERT(r, "predicate wait reports the wrong value"); }
    else co_await C->wait(lk, [] { return ready > 0; });
    SYM_ASSERT(ready > 0, "wait returned while its predicate is false");
    woken++;
}
static coro::task<void> idle() { co_await C->notify_one(); }
static coro::task<void> idle_all() { co_await C->notify_all(); }
template<coro::task<void>(*F)()> struct T { sym::flag* f; void operator()() { hx::start(F(), *f); } };
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        coro::mutex m;
        coro::condition_variable cv;
        M = &m; C = &cv;
        X = std::make_unique<hx::tex>();
        sym::flag w[2], f[2];
        hx::start(waiter(), w[0]);
        SYM_ASSERT(!w[0].get(), "the wait did not suspend");
        sym::thread b(T<waiter>{&w[1]});
        sym::thread c(T<idle>{&f[0]});
#ifdef ALL
        sym::thread d(T<idle_all>{&f[1]});
#else
        sym::thread d(T<idle>{&f[1]});
#endif
        f[0].wait(); f[1].wait();
        b.join(); c.join(); d.join();
        SYM_ASSERT(woken == 0, "a waiter was woken although its predicate is false");
        SYM_ASSERT(m.try_lock(), "the mutex stays locked");
        m.unlock();
        ready = 1;
        sym::flag g;
        hx::start(cv.notify_all(), g);
        SYM_ASSERT(g.get() && woken == 2, "notify_all missed a waiter");
        for (int i = 0; i < X->nt; i++) X->fire(i);
        X.reset();
    }
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
