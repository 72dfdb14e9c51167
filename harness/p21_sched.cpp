// A scheduler owns its epoll, timer and pipe descriptors: all are closed exactly once, also when building it fails.
#include "hx.hpp"
#include "env.hpp"
#include <coro/scheduler.hpp>
#include <memory>
using namespace std::chrono;
static coro::scheduler* S;
static int  polled;
static coro::poll_stop_source* src;
static hx::detached poller(int fd, bool stop)
{
    (void)co_await S->poll(fd, coro::poll_op::read, milliseconds{1}, stop ? std::optional{src->get_token()} : std::nullopt);
    polled++;
}
extern "C" void sym_main()
{
    auto base      = sym_live_heap();
    int  mine      = env::user_fd();
    env::K.fail_at = (int)sym_concretize(sym::range(0, FAIL, 5));
    env::K.reuse   = sym::flip();
    bool thrown = false, use = sym::flip(), stop = sym::flip();
    try
    {
        coro::poll_stop_source st;
        src    = &st;
        auto s = coro::scheduler::make_unique(coro::scheduler::options{
            .thread_strategy = coro::scheduler::thread_strategy_t::manual, .execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline});
        S = s.get();
        if (use)
        {
            poller(mine, stop);
            if (stop) st.signal_stop();
            sym_clock_ns += 2000000;
            env::set_ready(mine, EPOLLIN);
            for (int i = 0; i < 3; i++) s->process_events(milliseconds{0});
            SYM_ASSERT(polled == 1, "a poll is never resumed");
        }
        if (sym::flip()) s->shutdown();
    }
    catch (const std::runtime_error&)
    {
        thrown = true;
        SYM_ASSERT(env::K.failed, "an error nobody reported");
        sym_reach(2);
    }
    SYM_ASSERT(env::is_open(mine), "a descriptor of the user is closed");
    SYM_ASSERT(env::open_fds() == 1, "a descriptor is leaked");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    if (!thrown) sym_reach(1);
}
