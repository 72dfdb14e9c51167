// coro::scheduler: every accepted coroutine runs exactly once, size() returns to zero, refused work leaves nothing behind.
#include "hx.hpp"
#include "env.hpp"
#include <coro/scheduler.hpp>
#include <array>
#include <memory>
#include <stdexcept>
#ifndef INLINE
#define INLINE 1
#endif
#ifndef MANUAL
#define MANUAL 0
#endif
#ifndef OPS
#define OPS 6
#endif
#ifndef OP0
#define OP0 0
#endif
#ifndef MAINOPS
#define MAINOPS 1
#endif
using namespace std::chrono;
static coro::scheduler* S;
static int  runs[8], accepted[8], refused[8], order[16], norder, started, stopped;
static int  user[8];           // threads that offer work
static bool Joined[8];
static hx::counts C;
static void ran(int i)
{
#if MANUAL == 0
    for (int t : user) SYM_ASSERT(!t || sym_tid() + 1 != t, "a coroutine runs on the caller's thread");
    SYM_ASSERT(!INLINE || (started == 1 && stopped == 0), "a coroutine runs while the event loop thread does not");
#endif
    runs[i]++;
    SYM_ASSERT(runs[i] == 1, "a coroutine runs twice");
    order[norder++] = i;
}
static coro::task<void> body(int i, hx::tracked t)
{
    ran(i);
    t.check();
    co_return;
}
static hx::detached by_schedule(int i, hx::tracked t, bool twice)
{
    try
    {
        co_await S->schedule();
        if (twice) co_await S->yield();
        accepted[i]++;
        ran(i);
        t.check();
    }
    catch (const std::runtime_error&)
    {
        refused[i]++;
    }
}
static coro::task<int> val(int i, hx::tracked t)
{
    ran(i);
    co_return (int)t.value() + 7;
}
static hx::detached by_schedule_task(int i, hx::tracked t)
{
    int r = 0;
    try
    {
        r = co_await S->schedule(val(i, std::move(t)));
        accepted[i]++;
    }
    catch (const std::runtime_error&)
    {
        refused[i]++;
    }
    SYM_ASSERT(refused[i] || r == i + 7, "schedule(task) delivers another value");
}
static hx::detached by_timer(int i, hx::tracked t)
{
    co_await S->yield_for(milliseconds{1});
    accepted[i]++;
    ran(i);
    t.check();
}
static hx::detached by_joinable(int i, hx::tracked t, bool& joined)
{
    auto j = S->spawn_joinable(body(i, std::move(t)));
    co_await j;
    joined = true;
}
struct owned // a coroutine started suspended, owned by the harness
{
    struct promise_type
    {
        owned get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
        std::suspend_always initial_suspend() noexcept { return {}; }
        std::suspend_always final_suspend() noexcept { return {}; }
        void return_void() {}
        void unhandled_exception() {}
    };
    std::coroutine_handle<promise_type> h;
};
static owned handle_body(int i) { ran(i); co_return; }
static std::coroutine_handle<> H[8][2];
static void submit(int i, uint64_t k)
{
    switch (k)
    {
        case 0:
            if (S->spawn_detached(body(i, hx::tracked(C, i)))) accepted[i]++; else refused[i]++;
            break;
        case 1:
            H[i][0] = handle_body(i).h;
            if (S->resume(H[i][0])) accepted[i]++; else refused[i]++;
            break;
        case 2:
        {
            H[i][0] = handle_body(i).h;
            H[i][1] = nullptr;
            auto n  = S->resume(std::array<std::coroutine_handle<>, 2>{H[i][0], H[i][1]});
            SYM_ASSERT(n <= 1, "resume(range) counts a null handle");
            if (n) accepted[i]++; else refused[i]++;
            break;
        }
        case 3: by_joinable(i, hx::tracked(C, i), Joined[i]); break;
        case 4: by_schedule(i, hx::tracked(C, i), false); break;
        case 5: by_schedule(i, hx::tracked(C, i), true); break;
        case 6: by_schedule_task(i, hx::tracked(C, i)); break;
        case 7: by_timer(i, hx::tracked(C, i)); break;
    }
}
static void settle(int i, uint64_t k, bool must)
{
    if (k == 3)
        SYM_ASSERT(Joined[i] && (runs[i] == 1 || !must), "a joinable task was lost or its awaiter never resumed");
    else
    {
        SYM_ASSERT(accepted[i] + refused[i] == 1, "a coroutine was lost");
        SYM_ASSERT(!must || !refused[i], "work offered before shutdown is refused");
        SYM_ASSERT(runs[i] == accepted[i], "an accepted coroutine was lost");
    }
    if (H[i][0]) H[i][0].destroy();
    if (refused[i]) sym_reach(2);
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        auto s = coro::scheduler::make_unique(coro::scheduler::options{
            .thread_strategy = MANUAL ? coro::scheduler::thread_strategy_t::manual : coro::scheduler::thread_strategy_t::spawn,
            .on_io_thread_start_functor = [] { started++; },
            .on_io_thread_stop_functor  = [] { stopped++; },
            .pool = {.thread_count = 1},
            .execution_strategy = INLINE ? coro::scheduler::execution_strategy_t::process_tasks_inline : coro::scheduler::execution_strategy_t::process_tasks_on_thread_pool});
        S = s.get();
        uint64_t  k[8];
        const int n = MAINOPS;
        user[0]     = sym_tid() + 1;
        for (int i = 0; i < n; i++) k[i] = OP0 + (OPS > 1 ? sym_concretize(sym::range(0, OPS - 1, 3)) : 0);
#if MANUAL
        std::size_t sz = 0;
        for (int i = 0; i < n; i++)
        {
            sym_yield();
            auto r0 = norder;
            submit(i, k[i]);
            SYM_ASSERT(norder == r0 || !INLINE, "a coroutine runs before the event loop is driven");
            SYM_ASSERT(!INLINE || s->size() > 0, "size() does not count accepted work");
            if (sym::flip()) sz = s->process_events(milliseconds{0});
        }
        bool stop = sym::flip();
        if (stop) s->shutdown();
#ifdef DRIVERS // the event loop is driven by two threads at once
        {
            sym::thread d([] { S->process_events(milliseconds{0}); });
            s->process_events(milliseconds{0});
            d.join();
        }
#endif
        sym_clock_ns += 1000000;
        for (int i = 0; i < 4; i++) sz = s->process_events(milliseconds{0});
        SYM_ASSERT(!INLINE || sz == 0, "size() does not return to zero");
        s->shutdown();
        for (int i = 0; i < n; i++) settle(i, k[i], true);
#else
        // the event loop may rely on its own period once a shutdown has begun
#ifdef RACE // the last submission races with the shutdown
        for (int i = 0; i < n - 1; i++) submit(i, k[i]);
        sym::thread t([&] { user[1] = sym_tid() + 1; submit(n - 1, k[n - 1]); });
        env::K.heartbeat = 1;
        s->shutdown();
        t.join();
#else
        for (int i = 0; i < n; i++) submit(i, k[i]);
        env::K.heartbeat = 1;
        s->shutdown();
        for (int i = 0; i < norder && INLINE; i++) SYM_ASSERT(order[i] == i || MAINOPS > 1, "coroutines are started out of order");
#endif
        SYM_ASSERT(started == 1 && stopped == 1, "shutdown returned before the event loop thread had finished");
        for (int i = 0; i < n; i++)
        {
#ifdef RACE
            settle(i, k[i], i < n - 1);
#else
            settle(i, k[i], true);
#endif
        }
#endif
        SYM_ASSERT(s->is_shutdown(), "is_shutdown");
        SYM_ASSERT(s->size() == 0 && s->empty(), "size() does not return to zero");
#ifdef LATE
        uint64_t l  = OP0 + (OPS > 1 ? sym_concretize(sym::range(0, OPS - 1, 3)) : 0);
        int      r0 = norder;
        submit(7, l);
        SYM_ASSERT(norder == r0 && !accepted[7], "work runs after shutdown");
        if (l != 3) SYM_ASSERT(refused[7] == 1, "late work is not refused");
        else SYM_ASSERT(Joined[7], "the awaiter of late joinable work is never resumed");
        if (H[7][0]) H[7][0].destroy();
        SYM_ASSERT(s->size() == 0, "refused work leaves size() above zero");
#endif
        s->shutdown();
    }
    SYM_ASSERT(C.alive == 0, "a coroutine frame is leaked");
    SYM_ASSERT(env::open_fds() == 0, "a descriptor is leaked");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
