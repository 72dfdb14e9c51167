// coro::thread_pool: every accepted coroutine runs exactly once on a pool thread; refused work leaves nothing behind.
#include "hx.hpp"
#include <coro/thread_pool.hpp>
#include <array>
#ifndef POOL
#define POOL 1
#endif
#ifndef OPS
#define OPS 5
#endif
#ifndef OP0
#define OP0 0
#endif
static coro::thread_pool* P;
static int  runs[8], accepted[8], refused[8], started, stopped, order[8], norder;
static int  main_tid;
static bool pool_gone;
static hx::counts C;
static void ran(int i)
{
    SYM_ASSERT(sym_tid() != main_tid, "a coroutine runs on the caller's thread");
    SYM_ASSERT(started > stopped, "a coroutine runs after every worker thread has stopped");
    runs[i]++;
    SYM_ASSERT(runs[i] == 1, "a coroutine runs twice");
    order[norder++] = i;
}
static coro::task<void> body(int i, hx::tracked t)
{
    ran(i);
    t.check();
    co_return;
}
static hx::detached by_schedule(int i, hx::tracked t)
{
    try
    {
        co_await P->schedule();
        accepted[i]++;
        ran(i);
        t.check();
    }
    catch (const std::runtime_error&)
    {
        refused[i]++;
    }
}
static hx::detached by_joinable(int i, hx::tracked t, bool& joined)
{
    auto j = P->spawn_joinable(body(i, std::move(t)));
    co_await j;
    joined = true;
}
struct owned // a coroutine started suspended, owned by the harness
{
    struct promise_type
    {
        owned get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
        std::suspend_always initial_suspend() noexcept { return {}; }
        std::suspend_always final_suspend() noexcept { return {}; }
        void return_void() {}
        void unhandled_exception() {}
    };
    std::coroutine_handle<promise_type> h;
};
static owned handle_body(int i) { ran(i); co_return; }
// one submission; returns when it has been handed over or refused
static std::coroutine_handle<> H[8][2];
static bool Joined[8];
static void submit(int i, uint64_t k)
{
    if (k == 0)
        by_schedule(i, hx::tracked(C, i));
    else if (k == 1)
    {
        if (P->spawn_detached(body(i, hx::tracked(C, i)))) accepted[i]++; else refused[i]++;
    }
    else if (k == 2)
    {
        H[i][0] = handle_body(i).h;
        if (P->resume(H[i][0])) accepted[i]++; else refused[i]++;
    }
    else if (k == 3)
    {
        H[i][0] = handle_body(i).h;
        H[i][1] = nullptr;
        auto n = P->resume(std::array<std::coroutine_handle<>, 2>{H[i][0], H[i][1]});
        SYM_ASSERT(n <= 1, "resume(range) counts a null handle");
        if (n) accepted[i]++; else refused[i]++;
    }
    else
        by_joinable(i, hx::tracked(C, i), Joined[i]);
}
#ifndef MAINOPS
#define MAINOPS 1
#endif
extern "C" void sym_main()
{
#ifdef SPURIOUS
    sym_spurious = SPURIOUS;
#endif
    main_tid  = sym_tid();
    auto base = sym_live_heap();
    {
        auto p = coro::thread_pool::make_unique(coro::thread_pool::options{
            .thread_count            = POOL,
            .on_thread_start_functor = [](std::size_t i) { SYM_ASSERT(i < POOL, "thread index"); started++; },
            .on_thread_stop_functor  = [](std::size_t) { stopped++; }});
        P = p.get();
        uint64_t k[8];
        const int N = MAINOPS;
        for (int i = 0; i < N; i++) k[i] = OP0 + (OPS > 1 ? sym::range(0, OPS - 1, 3) : 0);
#ifdef RACE // the last submission races with the shutdown
        for (int i = 0; i < N - 1; i++) submit(i, k[i]);
        sym::thread t([&] { main_tid = -1; submit(N - 1, k[N - 1]); });
        p->shutdown();
        SYM_ASSERT(started == POOL && stopped == POOL, "shutdown returned before every worker thread had finished");
        t.join();
#else
        for (int i = 0; i < N; i++) submit(i, k[i]);
        p->shutdown();
        SYM_ASSERT(started == POOL && stopped == POOL, "shutdown returned before every worker thread had finished");
        for (int i = 0; i < N; i++)
            SYM_ASSERT(!refused[i], "work offered before shutdown is refused");
        if (POOL == 1)
            for (int i = 0; i < norder; i++) SYM_ASSERT(order[i] == i, "coroutines are started out of order");
#endif
        SYM_ASSERT(p->is_shutdown(), "is_shutdown");
        for (int i = 0; i < N; i++)
        {
            if (k[i] == 4) // tells nothing about acceptance: but awaiting it must end
                SYM_ASSERT(Joined[i] && (runs[i] == 1
#ifdef RACE
                    || i == N - 1
#endif
                    ), "a joinable task was lost or its awaiter never resumed");
            else
            {
                SYM_ASSERT(accepted[i] + refused[i] == 1, "a submission got no answer");
                SYM_ASSERT(runs[i] == accepted[i], "an accepted coroutine was lost");
            }
            if (H[i][0]) H[i][0].destroy();
        }
        SYM_ASSERT(p->size() == 0 && p->empty(), "size() does not return to zero");
        SYM_ASSERT(p->queue_size() == 0, "the queue is not empty after shutdown");
        // late work is refused and leaves nothing behind
#ifdef LATE
        uint64_t l = OP0 + (OPS > 1 ? sym::range(0, OPS - 1, 3) : 0);
        int      r0 = norder;
        H[7][0] = nullptr;
        submit(7, l);
        SYM_ASSERT(norder == r0 && !accepted[7], "work runs after shutdown");
        if (l != 4) SYM_ASSERT(refused[7] == 1, "late work is not refused");
        else SYM_ASSERT(Joined[7], "the awaiter of late joinable work is never resumed");
        if (H[7][0]) H[7][0].destroy();
        SYM_ASSERT(p->size() == 0, "refused work leaves size() above zero");
#endif
        p->shutdown();
    }
    SYM_ASSERT(C.alive == 0, "a coroutine frame is leaked");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    for (int i = 0; i < MAINOPS; i++) if (refused[i]) sym_reach(2);
    sym_reach(1);
}
