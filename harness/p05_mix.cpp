// coro::shared_mutex: holders and suspended waiters of symbolic kinds; the holders release on threads of their own while another
// thread asks for the lock.
#include "exec.hpp"
#include <coro/shared_mutex.hpp>
#ifndef PRE
#define PRE 2
#endif
#ifndef HOLD
#define HOLD 1
#endif
using E  = hx::inline_exec;
using SM = coro::shared_mutex<E>;
static SM* M;
static int readers, writers, entered[8], tried, wpre, wgone;
static void enter(bool ex)
{
    if (ex) { writers++; SYM_ASSERT(writers == 1 && readers == 0, "a writer shares the lock"); }
    else { readers++; SYM_ASSERT(writers == 0, "a reader and a writer hold the lock together"); }
}
static void leave(bool ex) { if (ex) writers--; else readers--; }
static void cs(int id, bool ex)
{
    SYM_ASSERT(++entered[id] == 1, "a coroutine is granted the lock twice");
    if (id >= PRE) SYM_ASSERT(wgone == wpre, "a late arrival is served before a writer that was already waiting");
    else if (ex) wgone++;
    enter(ex);
    sym_yield();
    leave(ex);
}
static coro::task<void> user(int id, int how)
{
    if (how == 0) { co_await M->lock(); cs(id, true); co_await M->unlock(); }
    else if (how == 1) { co_await M->lock_shared(); cs(id, false); co_await M->unlock_shared(); }
    else if (how == 2) { if (M->try_lock()) { cs(id, true); co_await M->unlock(); } else tried++; }
    else { if (M->try_lock_shared()) { cs(id, false); co_await M->unlock_shared(); } else tried++; }
}
static coro::task<void> giveback(bool ex)
{
    leave(ex);
    if (ex) co_await M->unlock(); else co_await M->unlock_shared();
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        std::unique_ptr<E> e = std::make_unique<E>();
        SM m(e);
        M = &m;
        sym::flag f[PRE], g[HOLD], l;
#if HOLD > 1
        bool ex = false;
#else
        bool ex = sym::flip();
#endif
        for (int i = 0; i < HOLD; i++) { SYM_ASSERT(ex ? m.try_lock() : m.try_lock_shared(), "the lock is not granted"); enter(ex); }
        int pre = (int)sym_concretize(sym::range(0, PRE));
        bool block = ex;
        for (int i = 0; i < pre; i++)
        {
            bool w = sym::flip();
            if (w) { wpre++; block = true; }
            hx::start(user(i, w ? 0 : 1), f[i]);
            SYM_ASSERT(f[i].get() == !block, "a coroutine is granted the lock although others hold it or wait, or waits for nothing");
        }
        {
            sym::thread u([&] { hx::start(giveback(ex), g[0]); });
            sym::thread a([&] { hx::start(user(PRE, (int)sym_concretize(sym::range(0, 3))), l); });
#if HOLD > 1
            sym::thread v([&] { hx::start(giveback(ex), g[1]); });
            v.join();
#endif
            u.join(); a.join();
            l.wait();
            for (auto& x : g) x.wait();
        }
        for (int i = 0; i < pre; i++) SYM_ASSERT(entered[i] == 1 && f[i].get(), "a waiter was lost");
        SYM_ASSERT(entered[PRE] + tried == 1, "an operation was lost or ran twice");
        SYM_ASSERT(m.try_lock(), "the lock is not free after the last unlock");
        SYM_ASSERT(!m.try_lock_shared(), "try_lock_shared succeeded on an exclusively held lock");
        sym::flag h;
        hx::start(m.unlock(), h);
        SYM_ASSERT(h.get(), "unlock suspended on an idle lock");
        SYM_ASSERT(m.try_lock_shared() && m.try_lock_shared(), "readers do not share the lock");
        if (pre == PRE) sym_reach(1);
    }
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
}
