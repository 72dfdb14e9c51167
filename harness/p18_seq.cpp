// scheduler timers on a manually driven event loop: never early, none lost, each once.
#include "hx.hpp"
#include "env.hpp"
#include <coro/scheduler.hpp>
#ifndef OFF
#define OFF 1
#endif
#ifndef TIMERS
#define TIMERS 2
#endif
using namespace std::chrono;
static coro::scheduler* S;
static int       fired[8];
static long long due[8];
static bool      again;
static long long driven; // when the event loop was last entered
#ifndef TICK
#define TICK 0
#endif
// how late a wake-up may be: what the environment adds and the resolution of process_events()
#define SLACK ((1ll << JITTER) + (TICK ? 4096 : 0) + 1000000)
extern "C" int   sym_clock_auto;
static hx::detached timer(int i, uint64_t kind, long long ns)
{
    auto now = coro::clock::now();
    due[i]   = now.time_since_epoch().count() + ns;
    if (kind == 0) co_await S->yield_for(nanoseconds{ns});
    else if (kind == 1) co_await S->yield_until(now + nanoseconds{ns});
    else if (kind == 2) co_await S->schedule_after(nanoseconds{ns});
    else co_await S->schedule_at(now + nanoseconds{ns});
#ifdef AGAIN
    if (i == 0 && !again)
    {
        again = true;
        due[i] = coro::clock::now().time_since_epoch().count() + ns;
        co_await S->yield_for(nanoseconds{ns});
    }
#endif
    fired[i]++;
    SYM_ASSERT(fired[i] == 1, "a timer fires twice");
    auto at = coro::clock::now().time_since_epoch().count();
    SYM_ASSERT(at >= due[i], "a timer fires before its deadline");
    SYM_ASSERT(at <= (due[i] > driven ? due[i] : driven) + SLACK, "a timer fires late although the event loop waits");
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        auto s = coro::scheduler::make_unique(coro::scheduler::options{
            .thread_strategy = coro::scheduler::thread_strategy_t::manual, .execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline});
        S = s.get();
        env::K.jitter = JITTER;
        env::K.shuffle = 1;
#if TICK
        sym_clock_auto = TICK; // every look at the clock may take that long
#endif
        for (int i = 0; i < TIMERS; i++)
        {
            sym_yield();
            uint64_t  k  = sym::range(0, 3, 2);
            long long ns = (long long)sym_input(BITS) * UNIT - OFF;
            timer(i, k, ns);
#ifdef DRIVE
            if (sym::flip()) { driven = coro::clock::now().time_since_epoch().count(); s->process_events(milliseconds{0}); }
#endif
        }
        int left = 0;
        for (int i = 0; i < TIMERS; i++) left += !fired[i];
        for (int n = 0; n < 2 * TIMERS + 4 && left; n++)
        {
            sym_yield();
            driven = coro::clock::now().time_since_epoch().count();
            auto sz = s->process_events(milliseconds{1000});
            left    = 0;
            for (int i = 0; i < TIMERS; i++) left += !fired[i];
            SYM_ASSERT((int)sz == left, "size() is not the number of waiting coroutines");
            for (int i = 0; i < TIMERS; i++)
                for (int j = 0; j < TIMERS; j++)
                    if (fired[j] && !fired[i]) SYM_ASSERT(due[i] > coro::clock::now().time_since_epoch().count() - (1ll << JITTER) || due[i] >= due[j], "an expired timer is passed over");
        }
        sym_clock_auto = 0;
        SYM_ASSERT(!left, "an expired timer is never resumed");
    }
    SYM_ASSERT(env::open_fds() == 0, "a descriptor is leaked");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
