// scheduler::poll with a dedicated event loop thread: the event, the timeout and the cancellation race.
#include "hx.hpp"
#include "env.hpp"
#include <coro/scheduler.hpp>
#include <memory>
using namespace std::chrono;
#ifndef EVENT
#define EVENT 1
#endif
#ifndef TIMEOUT
#define TIMEOUT 1
#endif
#ifndef CANCEL
#define CANCEL 0
#endif
#ifndef POOL
#define POOL 0
#endif
static coro::scheduler* S;
static sym::flag        done;
static int              fd, resumed, outcome;
static bool             evd, stopd;
static coro::poll_stop_source* src;
static hx::detached poller()
{
    auto cancel = CANCEL ? std::optional<coro::poll_stop_token>{src->get_token()} : std::nullopt;
    auto due    = coro::clock::now() + milliseconds{TIMEOUT};
    auto st     = co_await S->poll(fd, coro::poll_op::read, milliseconds{TIMEOUT}, cancel);
    SYM_ASSERT(++resumed == 1, "a poll is resumed twice");
    outcome = (int)st;
    SYM_ASSERT(st != coro::poll_status::read || evd, "poll reports read for a descriptor that is not readable");
    SYM_ASSERT(st != coro::poll_status::timeout || (TIMEOUT && coro::clock::now() >= due), "poll reports a timeout that has not passed");
    SYM_ASSERT(st != coro::poll_status::cancelled || stopd, "poll is cancelled without a request");
    SYM_ASSERT(st == coro::poll_status::read || st == coro::poll_status::timeout || st == coro::poll_status::cancelled, "poll reports an outcome that did not happen");
    SYM_ASSERT(env::watched(fd) == 0, "the descriptor of a finished poll is still watched");
    done.set();
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        coro::poll_stop_source stop;
        src    = &stop;
        auto s = coro::scheduler::make_unique(coro::scheduler::options{
            .thread_strategy = coro::scheduler::thread_strategy_t::spawn,
            .pool = {.thread_count = 1},
            .execution_strategy = POOL ? coro::scheduler::execution_strategy_t::process_tasks_on_thread_pool : coro::scheduler::execution_strategy_t::process_tasks_inline});
        S            = s.get();
        int entries0 = env::entries();
        fd           = env::user_fd();
        {
#if EVENT
            sym::thread e([] { evd = true; env::set_ready(fd, EPOLLIN); });
#endif
#if CANCEL
            sym::thread c([] { stopd = true; src->signal_stop(); });
#endif
            poller();
            done.wait();
#if EVENT
            e.join();
#endif
#if CANCEL
            c.join();
#endif
        }
        sym_reach((uint64_t)outcome + 2);
        env::K.heartbeat = 1; // from here on the event loop may rely on its own period
        s->shutdown();
        SYM_ASSERT(env::entries() == entries0, "a registration is left in the epoll set");
        for (auto& o : env::K.of) SYM_ASSERT(!(o.kind == env::F_TIMER && o.refs && o.armed), "a timer of a finished poll is still armed");
        SYM_ASSERT(s->empty(), "size() is not zero");
    }
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
