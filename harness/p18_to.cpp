// schedule(task, timeout): the task's result, or the timeout once it has passed.
#include "hx.hpp"
#include "env.hpp"
#include <coro/scheduler.hpp>
#include <coro/when_any.hpp>
using namespace std::chrono;
#ifndef STOP
#define STOP 0
#endif
static coro::scheduler* S;
static int              done, ran, res;
static bool             waits;
static long long        task_ns, to_ns, t0;
static coro::task<int> work(int v)
{
    if (waits) co_await S->yield_for(nanoseconds{task_ns});
    ran++;
    co_return v;
}
static coro::task<void> workv()
{
    (void)co_await work(1);
}
static hx::detached user(int v)
{
    t0 = coro::clock::now().time_since_epoch().count();
#if STOP == 0
    auto r = co_await S->schedule(work(v), DUR{to_ns / UNIT_NS});
#elif STOP == 1
    std::stop_source src;
    auto r = co_await S->schedule(src, work(v), DUR{to_ns / UNIT_NS});
    SYM_ASSERT(r.has_value() || src.stop_requested(), "a timeout does not request the task to stop");
#else
    auto r = co_await S->schedule(workv(), DUR{to_ns / UNIT_NS});
#endif
    done++;
    SYM_ASSERT(done == 1, "the awaiter of schedule() is resumed twice");
    auto now = coro::clock::now().time_since_epoch().count();
    if (r.has_value())
    {
        res = 1;
        SYM_ASSERT(ran == 1, "schedule() delivers a result before the task finished");
#if STOP != 2
        SYM_ASSERT(*r == v, "schedule() delivers another value");
#endif
        SYM_ASSERT(to_ns <= 0 || !waits || task_ns <= to_ns + 1000000 + (1ll << JITTER), "the timeout is ignored");
    }
    else
    {
        res = 2;
        SYM_ASSERT(r.error() == coro::timeout_status::timeout, "schedule() reports a strange error");
        SYM_ASSERT(to_ns > 0, "schedule() without a timeout times out");
        SYM_ASSERT(now >= t0 + to_ns, "schedule() times out before the timeout");
    }
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        auto s = coro::scheduler::make_unique(coro::scheduler::options{
            .thread_strategy = coro::scheduler::thread_strategy_t::manual, .execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline});
        S              = s.get();
        env::K.jitter  = JITTER;
        env::K.shuffle = 1;
        waits          = sym::flip();
        task_ns        = (long long)sym_input(BITS) * 500000 - 1;
        to_ns          = ((long long)sym_input(BITS) - 2) * UNIT_NS;
        user((int)sym_input(32));
        for (int n = 0; n < 8 && !(done && s->empty()); n++)
        {
            sym_yield();
            s->process_events(milliseconds{1000});
        }
        SYM_ASSERT(done == 1, "the awaiter of schedule() is never resumed");
        SYM_ASSERT(ran == 1, "the scheduled task is lost");
        SYM_ASSERT(s->empty(), "size() is not zero after all work is done");
        sym_reach((uint64_t)res);
    }
    SYM_ASSERT(env::open_fds() == 0, "a descriptor is leaked");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
}
