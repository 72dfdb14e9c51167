// coro::when_all: resumes once, after every awaitable, with each result at its own position.
#include "hx.hpp"
#include <coro/task.hpp>
#include <coro/when_all.hpp>
#include <coro/event.hpp>
#include <iterator>
#include <list>
#include <vector>
#ifndef RANGE
#define RANGE std::vector
#endif
#ifndef N
#define N 2
#endif
static hx::counts C;
struct oops { uint64_t v; };
struct remote
{
    std::coroutine_handle<> h{};
    volatile int            ready = 0;
    bool await_ready() const noexcept { return false; }
    void await_suspend(std::coroutine_handle<> x) noexcept { h = x; ready = 1; }
    void await_resume() const noexcept {}
};
static remote   W[4];
static uint64_t val[4];
static bool     thr[4], susp[4];
static int      began[4], ended[4], resumes, exceptions;
static hx::tracked* Obj;
static coro::task<hx::tracked> body(int i, hx::tracked a)
{
    SYM_ASSERT(++began[i] == 1, "an awaitable is started twice");
    hx::tracked loc(C, 0);
    if (susp[i]) co_await W[i];
    a.check(); loc.check();
    ended[i] = 1;
    if (thr[i]) throw oops{val[i]};
    co_return hx::tracked(C, val[i]);
}
static coro::task<void> body_void(int i)
{
    SYM_ASSERT(++began[i] == 1, "an awaitable is started twice");
    if (susp[i]) co_await W[i];
    ended[i] = 1;
    if (thr[i]) throw oops{val[i]};
}
static coro::task<hx::tracked&> body_ref(int i)
{
    SYM_ASSERT(++began[i] == 1, "an awaitable is started twice");
    if (susp[i]) co_await W[i];
    ended[i] = 1;
    if (thr[i]) throw oops{val[i]};
    co_return *Obj;
}
template<typename F>
static void check(int i, F&& get)
{
    SYM_ASSERT(ended[i], "resumed before an awaitable completed");
    bool ex = false;
    uint64_t v = 0;
    try { v = get(); }
    catch (const oops& o) { ex = true; v = o.v; exceptions++; }
    SYM_ASSERT(ex == thr[i], "value and exception are confused");
    SYM_ASSERT(v == val[i], "a result is at the wrong position");
}
static hx::detached run(sym::flag& f)
{
#if defined(MIXED)
    auto r = co_await coro::when_all(body(0, hx::tracked(C, 0)), body_void(1)
#if N > 2
        , body_ref(2)
#endif
    );
    check(0, [&] { return std::get<0>(r).return_value().value(); });
    check(1, [&] { std::get<1>(r).return_value(); return val[1]; });
#if N > 2
    check(2, [&] { auto& x = std::get<2>(r).return_value(); SYM_ASSERT(&x == Obj, "a different object"); return val[2]; });
#endif
#elif defined(VOIDS)
    RANGE<coro::task<void>> v;
    for (int i = 0; i < N; i++) v.push_back(body_void(i));
    auto r = co_await coro::when_all(std::move(v));
    SYM_ASSERT(r.size() == N, "number of results");
    for (int i = 0; i < N; i++) check(i, [&] { (*std::next(r.begin(), i)).return_value(); return val[i]; });
#else
    RANGE<coro::task<hx::tracked>> v;
    for (int i = 0; i < N; i++) v.push_back(body(i, hx::tracked(C, 0)));
    auto w = coro::when_all(std::move(v));
    for (int i = 0; i < N; i++) SYM_ASSERT(!began[i], "an awaitable is started before when_all is awaited");
    auto& r = co_await w;
    SYM_ASSERT(r.size() == N, "number of results");
    for (int i = 0; i < N; i++) check(i, [&] { return (*std::next(r.begin(), i)).return_value().value(); });
    for (int i = 0; i < N; i++) check(i, [&] { hx::tracked t = std::move((*std::next(r.begin(), i))).return_value(); return t.value(); });
#endif
    resumes++;
    f.set();
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        hx::counts O;
        hx::tracked obj(O, 0);
        Obj = &obj;
        for (int i = 0; i < N; i++) { val[i] = sym::u64(); thr[i] = sym::flip(); susp[i] = ALWAYS ? true : sym::flip(); }
        sym::flag f;
        {
            sym::thread a([] { if (susp[0]) { sym_block(&W[0].ready); W[0].h.resume(); } });
#if N > 1
            sym::thread b([] { if (susp[1]) { sym_block(&W[1].ready); W[1].h.resume(); } });
#endif
#if N > 2
            sym::thread c([] { if (susp[2]) { sym_block(&W[2].ready); W[2].h.resume(); } });
#endif
            run(f);
            f.wait();
            a.join();
#if N > 1
            b.join();
#endif
#if N > 2
            c.join();
#endif
        }
        SYM_ASSERT(resumes == 1, "the awaiter is resumed twice");
        for (int i = 0; i < N; i++) SYM_ASSERT(began[i] == 1 && ended[i] == 1, "an awaitable did not run exactly once");
        // empty sets
        bool e1 = false, e2 = false;
        [](bool& x) -> hx::detached { auto t = co_await coro::when_all(); static_assert(std::tuple_size_v<decltype(t)> == 0); x = true; }(e1);
        [](bool& x) -> hx::detached { auto t = co_await coro::when_all(std::vector<coro::task<void>>{}); SYM_ASSERT(t.empty(), "results of nothing"); x = true; }(e2);
        SYM_ASSERT(e1 && e2, "an empty when_all does not complete");
        // never awaited
        { auto w = coro::when_all(body(3, hx::tracked(C, 0))); (void)w; }
        SYM_ASSERT(began[3] == 0, "a when_all that is not awaited runs its awaitables");
        if (exceptions && susp[0]) sym_reach(2);
    }
    SYM_ASSERT(C.alive == 0, "a frame or result is leaked or destroyed twice");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
