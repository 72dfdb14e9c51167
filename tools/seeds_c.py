#!/usr/bin/env python3
from seed import seed, want
H = open(__file__.replace('seeds_c', 'seeds_a')).read().split("H = '''")[1].split("'''")[0]
H = H.replace('#include <cstdio>', '#include <cstdio>\n#include <cstring>\n#include <string>\n#include <memory>\n#include <functional>\n#include <sys/socket.h>\n#include <netinet/in.h>')
NET = 'src/*.cpp src/detail/[!i]*.cpp src/detail/io_notifier_epoll.cpp src/net/*.cpp src/net/tcp/*.cpp src/net/udp/*.cpp'
if want('S30'):
    seed('S30', 'P18', [('src/scheduler.cpp', '''    if (pos == m_timed_events.begin())
    {''', '''    if (m_timed_events.size() == 1)
    {''')],
    H + '''#include <coro/scheduler.hpp>
#include <coro/task.hpp>
static std::atomic<int> fired{0};
static detached t(std::unique_ptr<coro::scheduler>& s, int ms) { co_await s->schedule(); co_await s->yield_for(std::chrono::milliseconds(ms)); fired++; }
int main() {
    auto s = coro::scheduler::make_unique();
    t(s, 30000);
    std::this_thread::sleep_for(std::chrono::milliseconds(1500));
    auto b = std::chrono::steady_clock::now();
    int bad = 0;
    for (int i = 1; i <= 5; i++) {
        t(s, 50);
        while (fired.load() < i) { if (std::chrono::steady_clock::now() - b > std::chrono::seconds(20)) { CHECK(false, "a timer never fires"); } std::this_thread::yield(); }
    }
    CHECK(std::chrono::steady_clock::now() - b < std::chrono::milliseconds(1500), "the earlier timers fire late");
    (void)bad;
    _exit(0);
}''', 'a timer added while a later one is already running', 'the event loop sleeps past the new, earlier deadline', srcs=NET)
if want('S31'):
    seed('S31', 'P16', [('include/coro/task_group.hpp', '''            count_down();
            return false;''', '''            m_size.fetch_sub(1, std::memory_order::release);
            return false;''')],
    H + '''#include <coro/task_group.hpp>
#include <coro/task.hpp>
#include <coro/event.hpp>
struct ex {
    std::vector<std::coroutine_handle<>> q; bool refuse = false;
    struct op { bool await_ready() const noexcept { return true; } void await_suspend(std::coroutine_handle<>) noexcept {} void await_resume() const noexcept {} };
    op schedule() { return {}; }
    op yield() { return {}; }
    bool spawn_detached(coro::task<void>) { return false; }
    coro::task<void> spawn_joinable(coro::task<void> t) { return t; }
    bool resume(std::coroutine_handle<> h) {
        if (refuse) { run(); return false; } // the accepted work finishes while the executor shuts down
        q.push_back(h); return true;
    }
    void run() { auto x = std::move(q); q.clear(); for (auto h : x) h.resume(); }
    std::size_t size() const { return q.size(); }
    bool empty() const { return q.empty(); }
    void shutdown() {}
};
static int done, woken;
static coro::task<void> work() { done++; co_return; }
static detached waiter(coro::task_group<ex>& g) { co_await g; woken++; }
int main() {
    auto e = std::make_unique<ex>();
    coro::task_group<ex> g{e};
    CHECK(g.start(work()), "start");
    waiter(g);
    CHECK(woken == 0, "the awaiter did not wait");
    e->refuse = true;
    CHECK(!g.start(work()), "start after shutdown");
    CHECK(done == 1 && g.empty(), "the group is not empty");
    CHECK(woken == 1, "the awaiter of an empty group is never resumed");
    _exit(0);
}''', 'the last running task finishes while another start() is being refused by an executor that shuts down', 'the group gets empty without resuming its awaiters', srcs='src/*.cpp src/detail/[!i]*.cpp src/detail/io_notifier_epoll.cpp src/net/*.cpp')
if want('S32'):
    seed('S32', 'P05', [('include/coro/shared_mutex.hpp', '''            m_exclusive_waiters.fetch_sub(1, std::memory_order::release);
''', '''            // Advancing past the waiter: the counter restarts if nobody else waits for exclusive access behind it.
            if (head_waiter->m_next == nullptr || !head_waiter->m_next->m_exclusive)
            {
                m_exclusive_waiters.store(0, std::memory_order::release);
            }
            else
            {
                m_exclusive_waiters.fetch_sub(1, std::memory_order::release);
            }
''')],
    H + '''#include <coro/shared_mutex.hpp>
#include <coro/thread_pool.hpp>
struct ex {
    struct op { bool await_ready() const noexcept { return true; } void await_suspend(std::coroutine_handle<>) noexcept {} void await_resume() const noexcept {} };
    op schedule() { return {}; }
    op yield() { return {}; }
    bool spawn_detached(coro::task<void>) { return false; }
    coro::task<void> spawn_joinable(coro::task<void> t) { return t; }
    bool resume(std::coroutine_handle<> h) { h.resume(); return true; }
    std::size_t size() const { return 0; }
    bool empty() const { return true; }
    void shutdown() {}
};
static int w, r;
static detached writer(coro::shared_mutex<ex>& m) { co_await m.lock(); w++; }
static detached reader(coro::shared_mutex<ex>& m) { co_await m.lock_shared(); r++; }
static detached un(coro::shared_mutex<ex>& m, bool shared) { if (shared) co_await m.unlock_shared(); else co_await m.unlock(); }
int main() {
    auto e = std::make_unique<ex>();
    coro::shared_mutex<ex> m{e};
    writer(m); CHECK(w == 1, "lock");
    writer(m); reader(m); writer(m); // all of them wait
    un(m, false); CHECK(w == 2 && r == 0, "the second writer runs");
    un(m, false); CHECK(w == 2 && r == 1, "the reader runs");
    reader(m); CHECK(r == 1, "a reader overtakes the waiting writer");
    _exit(0);
}''', 'a writer behind a reader behind the writer that is woken up', 'the counter of waiting writers is wrong, new readers overtake the waiting writer', srcs='src/*.cpp src/detail/[!i]*.cpp src/detail/io_notifier_epoll.cpp src/net/*.cpp')
if want('S33'):
    seed('S33', 'P06', [('include/coro/ring_buffer.hpp', '''        auto result = co_await produce_operation{*this, std::move(e)};
        co_await try_resume_consumers();''', '''        auto result = co_await produce_operation{*this, std::move(e)};
        // Consumers only wait while the buffer is empty, they have been woken up by whoever added the first element.
        if (m_used.load(std::memory_order::acquire) == 1)
        {
            co_await try_resume_consumers();
        }''')],
    H + '''#include <coro/ring_buffer.hpp>
static std::atomic<int> got{0}, made{0};
static detached prod(coro::ring_buffer<int, 2>& r, int v) { co_await r.produce(v); made++; }
static detached cons(coro::ring_buffer<int, 2>& r) { auto x = co_await r.consume(); if (x) got++; }
int main() {
    auto* r = new coro::ring_buffer<int, 2>{};
    std::atomic<int> round{0}, done{0};
    std::thread([&] { int n = 0; while (true) { while (round.load() <= n) {} n++; prod(*r, 2); done++; } }).detach();
    for (int i = 1; i <= 400000; i++) {
        got = made = 0; done = 0;
        cons(*r); cons(*r);
        round++;
        for (volatile int d = 0; d < i % 64; d++) {}
        prod(*r, 1);
        while (done.load() < 1) {}
        auto t = std::chrono::steady_clock::now();
        while (got.load() < 2) CHECK(std::chrono::steady_clock::now() - t < std::chrono::seconds(3), "a consumer sleeps while an element is buffered");
    }
    _exit(0);
}''', 'two producers that both put their element into the buffer before either of them looks for consumers', 'the waiting consumers are not woken up although elements are buffered', srcs='src/mutex.cpp src/sync_wait.cpp', flags='-O2', timeout=200)
if want('S34'):
    seed('S34', 'P28', [('include/coro/invoke.hpp', '''detail::make_invoker_task(std::forward<functor_type>(functor), std::forward<args_types>(args)...)''', '''detail::make_invoker_task(std::forward<functor_type>(functor), static_cast<const std::remove_reference_t<args_types>&>(args)...)''')],
    H + '''#include <coro/invoke.hpp>
#include <coro/task.hpp>
static coro::task<int> use(std::shared_ptr<int> p) { co_return *p; }
static detached go(std::shared_ptr<int>& p, int& v) { auto t = coro::invoke([](std::shared_ptr<int> q) -> coro::task<int> { return use(std::move(q)); }, std::move(p)); v = co_await t; }
int main() {
    auto p = std::make_shared<int>(7); int v = 0;
    go(p, v);
    CHECK(v == 7, "value");
    CHECK(p == nullptr, "the argument passed with std::move is copied");
    _exit(0);
}''', 'an argument passed as an rvalue', 'it is copied instead of moved', srcs='')
if want('S35'):
    seed('S35', 'P27', [('src/net/io_status.cpp', '''        case poll_status::cancelled:
            return io_status{io_status::kind::cancelled};
''', '')],
    H + '''#include <coro/net/io_status.hpp>
int main() {
    CHECK(coro::net::make_io_status_from_poll_status(coro::poll_status::cancelled).type == coro::net::io_status::kind::cancelled, "cancelled is reported as something else");
    _exit(0);
}''', 'a cancelled poll', 'its io_status is unknown', srcs='src/net/io_status.cpp src/poll.cpp')
