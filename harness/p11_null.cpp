// coro::thread_pool: null and finished handles are refused and never counted.
#include "hx.hpp"
#include <coro/thread_pool.hpp>
#include <array>
#ifndef LEN
#define LEN 3
#endif
static int runs[LEN + 1];
struct owned
{
    struct promise_type
    {
        owned get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
        std::suspend_always initial_suspend() noexcept { return {}; }
        std::suspend_always final_suspend() noexcept { return {}; }
        void return_void() {}
        void unhandled_exception() {}
    };
    std::coroutine_handle<promise_type> h;
};
static owned body(int i) { runs[i]++; co_return; }
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        auto p = coro::thread_pool::make_unique(coro::thread_pool::options{.thread_count = 1});
        std::array<std::coroutine_handle<>, LEN> r{};
        std::size_t valid = 0;
        bool        late  = sym::flip();
        if (late) p->shutdown();
        for (int i = 0; i < LEN; i++)
        {
            sym_yield();
            if (sym::flip()) { r[i] = body(i).h; valid++; }
        }
        auto n = p->resume(r);
        SYM_ASSERT(n == (late ? 0 : valid), "resume(range) does not report how many coroutines it accepted");
        auto one = body(LEN).h;
        if (sym::flip())
        {
            one.resume(); // finished
            SYM_ASSERT(!p->resume(one), "a finished coroutine is accepted");
            SYM_ASSERT(!p->resume(nullptr), "a null handle is accepted");
            runs[LEN]--;
        }
        p->shutdown();
        SYM_ASSERT(!p->resume(nullptr), "a null handle is accepted");
        SYM_ASSERT(p->resume(std::vector<std::coroutine_handle<>>{}) == 0, "nothing is accepted from an empty range");
        SYM_ASSERT(p->empty() && p->size() == 0 && p->queue_empty(), "size() does not return to zero");
        for (int i = 0; i < LEN; i++)
        {
            SYM_ASSERT(runs[i] == (r[i] && !late ? 1 : 0), "an accepted coroutine was lost or ran twice");
            if (r[i]) r[i].destroy();
        }
        SYM_ASSERT(runs[LEN] == 0, "a coroutine ran that was never submitted");
        one.destroy();
        if (!valid) sym_reach(2);
    }
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
