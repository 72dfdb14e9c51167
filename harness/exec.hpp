// A hand-cranked executor: resumed coroutines queue up until the harness runs them.
#pragma once
#include "hx.hpp"
#include <coro/concepts/executor.hpp>
#include <coro/task.hpp>
#include <memory>
namespace hx
{
struct exec
{
    std::coroutine_handle<> q[16];
    int                     head = 0, tail = 0, resumed = 0;
    // pump(): an executor thread that runs what is queued only after events, so that a coroutine polling through
    // yield() is re-run once per event instead of spinning
    volatile int            kicked = 0;
    int                     events = 0, seen = 0;
    struct op
    {
        exec* e;
        bool  y;
        bool  await_ready() const noexcept { return false; }
        void  await_suspend(std::coroutine_handle<> h) noexcept { e->push(h); }
        void  await_resume() const noexcept {}
    };
    void push(std::coroutine_handle<> h) { SYM_ASSERT(tail < 16, "harness: executor queue overflow"); q[tail++] = h;
        if (events != seen) { seen = events; kicked = 1; }
    }
    void event() { events++; kicked = 1; }
    void pump(const volatile int& until)
    {
        while (!until)
        {
            sym_block(&kicked);
            kicked = 0;
            run_once();
        }
    }
    op   schedule() { return op{this, false}; }
    op   yield() { return op{this, true}; }
    bool resume(std::coroutine_handle<> h)
    {
        if (!h || h.done()) return false;
        resumed++;
        push(h);
        return true;
    }
    bool             spawn_detached(coro::task<void>) { return false; }
    coro::task<void> spawn_joinable(coro::task<void> t) { return t; }
    std::size_t      size() const { return tail - head; }
    bool             empty() const { return head == tail; }
    void             shutdown() {}
    bool             step()
    {
        if (head == tail) return false;
        auto h = q[head++];
        if (head == tail) head = tail = 0;
        h.resume();
        return true;
    }
    void run_once() // only what is queued now
    {
        for (int k = tail - head; k > 0; k--) step();
    }
    void run() { while (step()) {} }
};
// Resumes in place.
struct inline_exec : exec
{
    bool resume(std::coroutine_handle<> h) { resumed++; h.resume(); return true; }
};
static_assert(coro::concepts::executor<exec>);
} // namespace hx
