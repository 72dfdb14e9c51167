// coro::thread_pool: accepted work runs without a shutdown, on as many workers as there are, and may go back to the pool.
#include "hx.hpp"
#include <coro/thread_pool.hpp>
#include <array>
#ifndef POOL
#define POOL 1
#endif
#ifndef TASKS
#define TASKS 2
#endif
#ifndef OPS
#define OPS 5
#endif
static coro::thread_pool* P;
static volatile int together, finished;
static int          arrived, ended, runs[2 * TASKS + 2], main_tid, joined;
static hx::counts   C;
static void end()
{
    if (++ended == TASKS + CHILDREN * TASKS) finished = 1;
}
static void part(int i)
{
    SYM_ASSERT(sym_tid() != main_tid, "a coroutine runs on the caller's thread");
    runs[i]++;
}
static coro::task<void> child(int i, hx::tracked t)
{
    t.check();
    part(TASKS + i);
    end();
    co_return;
}
#ifdef BARRIER // every task waits for all the others
#define BODY                                  \
    part(i);                                  \
    if (++arrived == TASKS) together = 1;     \
    sym_block(&together);                     \
    end();
#else // goes back to the end of the queue, then adds work from inside the pool
#define BODY                                                                                    \
    part(i);                                                                                    \
    co_await P->yield();                                                                        \
    part(i);                                                                                    \
    if (CHILDREN) SYM_ASSERT(P->spawn_detached(child(i, hx::tracked(C, TASKS + i))), "work offered before shutdown is refused"); \
    end();
#endif
static coro::task<void> body(int i, hx::tracked t)
{
    t.check();
    BODY
    co_return;
}
static hx::detached by_schedule(int i, hx::tracked t)
{
    co_await P->schedule();
    t.check();
    BODY
}
static hx::detached by_joinable(int i, hx::tracked t)
{
    co_await P->spawn_joinable(body(i, std::move(t)));
    joined++;
}
struct owned
{
    struct promise_type
    {
        owned get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
        std::suspend_always initial_suspend() noexcept { return {}; }
        std::suspend_always final_suspend() noexcept { return {}; }
        void return_void() {}
        void unhandled_exception() {}
    };
    std::coroutine_handle<promise_type> h;
};
static owned handle_body(int i)
{
    BODY
    co_return;
}
extern "C" void sym_main()
{
    main_tid  = sym_tid();
    auto base = sym_live_heap();
    {
        auto p = coro::thread_pool::make_unique(coro::thread_pool::options{.thread_count = POOL});
        P      = p.get();
        auto k = sym::range(0, OPS - 1, 3);
        std::array<std::coroutine_handle<>, TASKS> h{};
        if (k >= 3)
            for (int i = 0; i < TASKS; i++) h[i] = handle_body(i).h;
        if (k == 4)
            SYM_ASSERT(p->resume(h) == TASKS, "work offered before shutdown is refused");
        else
            for (int i = 0; i < TASKS; i++)
                if (k == 0) by_schedule(i, hx::tracked(C, i));
                else if (k == 1) SYM_ASSERT(p->spawn_detached(body(i, hx::tracked(C, i))), "work offered before shutdown is refused");
                else if (k == 2) by_joinable(i, hx::tracked(C, i));
                else SYM_ASSERT(p->resume(h[i]), "work offered before shutdown is refused");
        sym_block(&finished); // without a shutdown
        p->shutdown();
        SYM_ASSERT(p->size() == 0 && p->queue_empty(), "size() does not return to zero");
        if (k == 2) SYM_ASSERT(joined == TASKS, "the awaiter of joinable work is never resumed");
        for (int i = 0; i < TASKS; i++)
        {
#ifdef BARRIER
            SYM_ASSERT(runs[i] == 1, "a coroutine runs twice");
#else
            SYM_ASSERT(runs[i] == 2 && runs[TASKS + i] == CHILDREN, "a coroutine is resumed too often");
#endif
            if (h[i]) h[i].destroy();
        }
    }
    SYM_ASSERT(C.alive == 0, "a coroutine frame is leaked");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
