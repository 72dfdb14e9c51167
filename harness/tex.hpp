// An executor with timers that the harness fires by hand: satisfies the io_executor concept.
#pragma once
#include "exec.hpp"
#include <chrono>
#include <coro/fd.hpp>
#include <coro/poll.hpp>
namespace hx
{
struct tex : exec
{
    struct tm
    {
        std::coroutine_handle<> h;
        long long               ns;
        bool                    fired;
    } t[16];
    int nt = 0;
    struct after
    {
        tex*      e;
        long long ns;
        bool      await_ready() const noexcept { return false; }
        void      await_suspend(std::coroutine_handle<> h) noexcept { e->t[e->nt++] = {h, ns, false}; if (e->on_timer) e->on_timer->set(); }
        void      await_resume() const noexcept {}
    };
    sym::flag* on_timer = nullptr;
    after schedule_after(std::chrono::nanoseconds d) { return {this, d.count()}; }
    void  fire(int i)
    {
        if (i >= nt || t[i].fired) return;
        t[i].fired = true;
        t[i].h.resume();
    }
    coro::task<coro::poll_status> poll(coro::fd_t, coro::poll_op, std::chrono::milliseconds) { co_return coro::poll_status::error; }
    static detached run_(coro::task<void> x) { co_await x; }
    bool  spawn_detached(coro::task<void> x)
    {
        run_(std::move(x));
        return true;
    }
};
} // namespace hx
