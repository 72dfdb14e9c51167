// coro::default_executor: one instance for every caller, whichever threads race to create it, built with the options set.
#include "hx.hpp"
#include <coro/default_executor.hpp>
#ifndef CALLERS
#define CALLERS 2
#endif
#ifdef IO
#include <coro/scheduler.hpp>
#define EXEC coro::default_executor::io_executor()
using exec_t = coro::scheduler;
#else
using exec_t = coro::thread_pool;
#define EXEC coro::default_executor::executor()
#endif
static int started, ran;
static void* seen[4];
static std::unique_ptr<exec_t>* holder[4];
static hx::detached use(exec_t& p, sym::flag& f)
{
    co_await p.schedule();
    ran++;
    f.set();
}
static void call(int i)
{
    auto& e = EXEC;
    SYM_ASSERT(e != nullptr, "the default executor is used before it exists");
    holder[i] = &e;
    seen[i]   = e.get();
#ifndef IO
    SYM_ASSERT(e->thread_count() == 1, "the default executor is not built with the options set before");
#endif
}
extern "C" void sym_main()
{
#ifdef IO
    coro::default_executor::set_io_executor_options(coro::scheduler::options{
        .thread_strategy = coro::scheduler::thread_strategy_t::manual, .execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline});
#else
    coro::default_executor::set_executor_options(coro::thread_pool::options{
        .thread_count = 1, .on_thread_start_functor = [](std::size_t) { started++; }, .on_thread_stop_functor = nullptr});
#endif
    sym::thread a([] { call(1); });
#if CALLERS > 2
    sym::thread b([] { call(2); });
#endif
    call(0);
    a.join();
#if CALLERS > 2
    b.join();
#endif
    for (int i = 1; i < CALLERS; i++)
        SYM_ASSERT(seen[i] == seen[0] && holder[i] == holder[0], "two callers got different default executors");
#ifdef USE
    sym::flag f;
    use(*EXEC, f);
#ifdef IO
    SYM_ASSERT(ran == 0 && EXEC->size() == 1, "the options set before are not used"); // nobody but this thread drives it
    EXEC->process_events(std::chrono::milliseconds{0});
#endif
    f.wait();
    SYM_ASSERT(ran == 1, "work given to the default executor is not run");
    EXEC->shutdown();
#ifndef IO
    SYM_ASSERT(started == 1, "the options set before are not used");
#endif
#endif
    SYM_ASSERT(EXEC.get() == seen[0], "a later caller got a different default executor");
    sym_reach(1);
}
