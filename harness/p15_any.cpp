// coro::when_any: one result, the value of the first to complete; late finishers are harmless.
#include "hx.hpp"
#include <coro/task.hpp>
#include <coro/when_any.hpp>
#include <list>
#include <forward_list>
#include <vector>
#ifndef RANGE
#define RANGE std::vector
#endif
#ifndef NA
#define NA 2
#endif
static hx::counts C;
struct oops { uint64_t v; };
struct remote
{
    std::coroutine_handle<> h{};
    volatile int            ready = 0;
    bool await_ready() const noexcept { return false; }
    void await_suspend(std::coroutine_handle<> x) noexcept { h = x; ready = 1; }
    void await_resume() const noexcept {}
};
static remote   W[4];
static uint64_t val[4];
static bool     thr[4], susp[4];
static int      began[4], ended[4], order[4], nended, resumes, good;
static int      fid;
static coro::task<hx::tracked> body(int i, hx::tracked a)
{
    SYM_ASSERT(++began[i] == 1, "an awaitable is started twice");
    hx::tracked loc(C, 0);
    if (susp[i]) co_await W[i];
    a.check(); loc.check();
    order[nended++] = i;
    ended[i]        = 1;
    if (thr[i]) throw oops{val[i]};
    good++;
    co_return hx::tracked(C, val[i]);
}
static coro::task<void> body_void(int i)
{
    SYM_ASSERT(++began[i] == 1, "an awaitable is started twice");
    if (susp[i]) co_await W[i];
    order[nended++] = i;
    ended[i]        = 1;
    if (thr[i]) throw oops{val[i]};
    good++;
}
// the value is one of a completed awaitable (the order in which racing awaitables count as first is theirs to decide)
static void is_result(uint64_t v)
{
    bool ok = false, strict = false;
    for (int i = 0; i < NA; i++)
    {
        ok |= began[i] && ended[i] && !thr[i] && v == val[i];
        strict |= ended[i] && !thr[i];
    }
    SYM_ASSERT(strict, "resumed before any awaitable completed");
    SYM_ASSERT(ok, "the result is not the value of a completed awaitable");
#ifdef SEQ
    // completions one after another: the first one wins
    int first = -1;
    for (int k = nended - 1; k >= 0; k--) if (!thr[order[k]]) first = order[k];
    SYM_ASSERT(v == val[first], "the result is not the first awaitable's");
#endif
}
static hx::detached run(sym::flag& f, std::stop_source src)
{
    bool stop = false;
#ifdef STOP
    stop = true;
#endif
    bool failed = false;
#ifdef TUPLE
    try
    {
#ifdef STOP
        auto r = co_await coro::when_any(src, body(0, hx::tracked(C, 0))
#else
        auto r = co_await coro::when_any(body(0, hx::tracked(C, 0))
#endif
#if NA > 1
        , body_void(1)
#endif
#if NA > 2
        , body(2, hx::tracked(C, 0))
#endif
        );
        SYM_ASSERT(r.index() < NA, "a result without an index");
        if (r.index() == 0) { SYM_ASSERT(ended[0] && !thr[0], "a result of an awaitable that gave none"); is_result(std::get<0>(r).value()); SYM_ASSERT(std::get<0>(r).value() == val[0], "a result at the wrong index"); }
#if NA > 1
        else if (r.index() == 1) { SYM_ASSERT(ended[1] && !thr[1], "a result of an awaitable that gave none"); is_result(val[1]); }
#endif
#if NA > 2
        else if (r.index() == 2) { SYM_ASSERT(ended[2] && !thr[2], "a result of an awaitable that gave none"); is_result(std::get<2>(r).value()); }
#endif
    }
    catch (const oops& o) { failed = true; }
#elif defined(VOIDS)
    RANGE<coro::task<void>> v;
    for (int i = 0; i < NA; i++) v.push_back(body_void(i));
    try
    {
#ifdef STOP
        co_await coro::when_any(src, std::move(v));
#else
        co_await coro::when_any(std::move(v));
#endif
        bool any = false;
        for (int i = 0; i < NA; i++) any |= ended[i] && !thr[i];
        SYM_ASSERT(any, "resumed before any awaitable completed");
    }
    catch (const oops& o) { failed = true; }
#else
    RANGE<coro::task<hx::tracked>> v;
    for (int i = 0; i < NA; i++) v.push_back(body(i, hx::tracked(C, 0)));
    try
    {
#ifdef STOP
        hx::tracked r = co_await coro::when_any(src, std::move(v));
#else
        hx::tracked r = co_await coro::when_any(std::move(v));
#endif
        is_result(r.value());
    }
    catch (const oops& o) { failed = true; }
#endif
    if (failed) for (int i = 0; i < NA; i++) SYM_ASSERT(ended[i] && thr[i], "an exception although an awaitable gives a result");
    if (stop) SYM_ASSERT(src.stop_requested(), "stop is not requested before the caller continues");
    if (failed) sym_reach(3);
    resumes++;
    f.set();
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        bool all_throw = true;
        for (int i = 0; i < NA; i++)
        {
            val[i] = i == 0 ? sym::u64() : val[0] + i; // distinct
            thr[i] = NOTHROW ? false : sym::flip(); susp[i] = sym::flip(); all_throw &= thr[i];
        }
        std::stop_source src;
        sym::flag f;
#ifdef SEQ // this thread completes them, in any order
        run(f, src);
        for (int k = 0; k < NA; k++)
        {
            int i = sym::range(0, NA - 1, 2);
            i     = sym_concretize(i);
            if (susp[i] && !ended[i]) W[i].h.resume();
        }
        for (int i = 0; i < NA; i++) if (susp[i] && began[i] && !ended[i]) W[i].h.resume();
#else
        {
            // awaitables that are never started need no release
            sym::thread a([] { if (susp[0]) { sym_block(&W[0].ready); W[0].h.resume(); } });
#if NA > 1
            sym::thread b([] { if (susp[1]) { sym_block(&W[1].ready); W[1].h.resume(); } });
#endif
#if NA > 2
            sym::thread c([] { if (susp[2]) { sym_block(&W[2].ready); W[2].h.resume(); } });
#endif
            run(f, src);
            f.wait();
            a.join();
#if NA > 1
            b.join();
#endif
#if NA > 2
            c.join();
#endif
        }
#endif
        f.wait();
        SYM_ASSERT(resumes == 1, "the awaiter is resumed twice");
        for (int i = 0; i < NA; i++) SYM_ASSERT(began[i] == ended[i] && began[i] == 1, "an awaitable did not run exactly once");
        if (susp[0]) sym_reach(2);
    }
    SYM_ASSERT(C.alive == 0, "a frame or result is leaked or destroyed twice");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
