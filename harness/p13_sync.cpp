// coro::sync_wait: returns after completion, on whichever thread it completes, with the outcome.
#include "hx.hpp"
#include <coro/event.hpp>
#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
#ifndef SPURIOUS
#define SPURIOUS 1
#endif
#ifndef KIND
#define KIND 0
#endif
static hx::counts C;
static int        runs, ended;
struct oops { uint64_t v; };
// resumed by another thread, at any moment after it was published
struct remote
{
    std::coroutine_handle<> h{};
    volatile int            ready = 0;
    bool await_ready() const noexcept { return false; }
    void await_suspend(std::coroutine_handle<> x) noexcept { h = x; ready = 1; }
    void await_resume() const noexcept {}
};
static remote      W;
static bool        thr, susp;
static uint64_t    val;
static hx::tracked* Obj;
#if KIND == 0
using R = hx::tracked;
#elif KIND == 1
using R = hx::tracked&;
#elif KIND == 2
using R = void;
#elif KIND == 3
using R = std::unique_ptr<hx::tracked>;
#else
using R = const uint64_t;
#endif
static coro::task<R> body(hx::tracked arg)
{
    hx::tracked loc(C, 1);
    SYM_ASSERT(++runs == 1, "the awaitable runs twice");
    if (susp) co_await W;
    sym_yield();
    arg.check(); loc.check();
    ended = 1;
    if (thr) throw oops{val};
#if KIND == 0
    co_return hx::tracked(C, val);
#elif KIND == 1
    co_return *Obj;
#elif KIND == 2
    co_return;
#elif KIND == 3
    co_return std::make_unique<hx::tracked>(C, val);
#else
    co_return val;
#endif
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        val  = sym::u64();
        thr  = sym::flip();
        susp = sym::flip();
        sym_spurious = SPURIOUS;
        hx::counts  O;
        hx::tracked obj(O, val);
        Obj = &obj;
        bool ex = false, lvalue = sym::flip();
        sym::thread t([] { if (susp) { sym_block(&W.ready); W.h.resume(); } });
        try
        {
            auto tk = body(hx::tracked(C, 0));
#if KIND == 2
            if (lvalue) coro::sync_wait(tk); else coro::sync_wait(std::move(tk));
#elif KIND == 0
            if (lvalue) { auto&& v = coro::sync_wait(tk); SYM_ASSERT(v.value() == val, "a different value"); SYM_ASSERT(tk.is_ready(), "is_ready"); }
            else { hx::tracked v = coro::sync_wait(std::move(tk)); SYM_ASSERT(v.value() == val, "a different value"); }
#elif KIND == 1
            hx::tracked& v = lvalue ? coro::sync_wait(tk) : coro::sync_wait(std::move(tk));
            SYM_ASSERT(&v == Obj, "a different object");
#elif KIND == 3
            { std::unique_ptr<hx::tracked> v = coro::sync_wait(std::move(tk)); SYM_ASSERT(v && v->value() == val, "a different value"); }
#else
            uint64_t v = lvalue ? coro::sync_wait(tk) : coro::sync_wait(std::move(tk));
            SYM_ASSERT(v == val, "a different value");
#endif
            SYM_ASSERT(ended, "sync_wait returned before the awaitable completed");
            SYM_ASSERT(!thr, "the exception is lost");
        }
        catch (const oops& o)
        {
            ex = true;
            SYM_ASSERT(thr && o.v == val, "a different exception");
        }
        SYM_ASSERT(ex == thr && runs == 1 && ended, "sync_wait returned early");
        t.join();
        // other awaitables
        coro::event e;
        bool pre = sym::flip();
        if (pre) e.set();
        sym::thread u([&] { if (!pre) e.set(); });
        coro::sync_wait(e);
        SYM_ASSERT(e.is_set(), "sync_wait returned before the event was set");
        u.join();
        if (ex && susp) sym_reach(2);
    }
    SYM_ASSERT(C.alive == 0, "an object is leaked or destroyed twice");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
