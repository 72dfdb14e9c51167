// Shared harness helpers: fire-and-forget coroutines, leak accounting.
#pragma once
#include "sym.hpp"
#include <coroutine>
#include <exception>
#include <utility>
namespace hx
{
// A coroutine that starts at once and destroys its own frame when it finishes.
struct detached
{
    struct promise_type
    {
        detached get_return_object() noexcept { return {}; }
        std::suspend_never initial_suspend() noexcept { return {}; }
        std::suspend_never final_suspend() noexcept { return {}; }
        void return_void() noexcept {}
        void unhandled_exception() noexcept { sym_fail_msg("an exception escaped to the detached caller"); }
    };
};
// Runs an awaitable to completion in the background, then sets the flag.
template<typename A>
detached start(A a, sym::flag& done)
{
    co_await std::move(a);
    done.set();
}
// Something a coroutine can wait on and the harness can release: exactly one waiter.
struct gate
{
    std::coroutine_handle<> h{};
    bool await_ready() const noexcept { return false; }
    void await_suspend(std::coroutine_handle<> x) noexcept { h = x; }
    void await_resume() const noexcept {}
    void open()
    {
        auto x = h;
        h      = {};
        x.resume();
    }
};
// Counts constructions and destructions; a double destruction or use of a dead object is an assertion failure.
struct counts
{
    int alive = 0, made = 0, dead = 0, copies = 0;
};
struct tracked
{
    counts*  c;
    uint64_t v;
    unsigned magic = 0x600d600d;
    static counts& none() { static constinit counts n{}; return n; }
    tracked() : c(&none()), v(0) { c->alive++; c->made++; }
    tracked(counts& k, uint64_t x) : c(&k), v(x) { c->alive++; c->made++; }
    tracked(const tracked& o) : c(o.c), v(o.value()) { c->alive++; c->made++; c->copies++; }
    tracked(tracked&& o) noexcept : c(o.c), v(o.value()) { c->alive++; c->made++; o.v = 0xdead; }
    tracked& operator=(const tracked& o) { check(); rebind(o.c); v = o.value(); return *this; }
    tracked& operator=(tracked&& o) noexcept { check(); rebind(o.c); v = o.value(); o.v = 0xdead; return *this; }
    ~tracked() { check(); magic = 0xbad0bad0; c->alive--; c->dead++; }
    void rebind(counts* k) noexcept { if (k != c) { c->alive--; c->dead++; c = k; c->alive++; c->made++; } }
    void check() const noexcept { SYM_ASSERT(magic == 0x600d600d, "an object is used or destroyed after its destruction"); }
    uint64_t value() const noexcept { check(); return v; }
};
} // namespace hx
