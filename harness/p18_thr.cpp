// timers added while the event loop thread works on others.
#include "hx.hpp"
#include "env.hpp"
#include <coro/scheduler.hpp>
using namespace std::chrono;
#ifndef THREADS
#define THREADS 1
#endif
static coro::scheduler* S;
static sym::flag        done[4];
static int              fired[4];
static long long ns[4];
static hx::detached timer(int i)
{
    auto due = coro::clock::now() + nanoseconds{ns[i]};
    co_await S->yield_for(nanoseconds{ns[i]});
    SYM_ASSERT(++fired[i] == 1, "a timer fires twice");
    SYM_ASSERT(coro::clock::now() >= due, "a timer fires before its deadline");
    done[i].set();
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        auto s = coro::scheduler::make_unique(coro::scheduler::options{
            .thread_strategy = coro::scheduler::thread_strategy_t::spawn, .execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline});
        S = s.get();
        for (int i = 0; i <= THREADS; i++) ns[i] = 1 + (sym::flip() ? 2000000 : 0);
#if THREADS == 1
        timer(0);
        timer(1);
#else
        {
            sym::thread a([] { timer(1); });
            timer(0);
            timer(2);
            a.join();
        }
#endif
        for (int i = 0; i <= THREADS; i++) done[i].wait();
        s->shutdown();
        SYM_ASSERT(s->empty(), "size() is not zero after all work is done");
    }
    SYM_ASSERT(env::open_fds() == 0, "a descriptor is leaked");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
