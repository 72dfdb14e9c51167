#!/usr/bin/env python3
from seed import seed, want
H = '''#include <cstdio>
#include <coroutine>
#include <atomic>
#include <thread>
#include <vector>
#include <chrono>
#include <stdexcept>
#include <unistd.h>
struct detached { struct promise_type { detached get_return_object(){return {};} std::suspend_never initial_suspend(){return {};} std::suspend_never final_suspend() noexcept {return {};} void return_void(){} void unhandled_exception(){ std::terminate(); } }; };
#define CHECK(x, msg) do { if (!(x)) { std::puts(msg); std::fflush(stdout); _exit(1); } } while (0)
'''
if want('S01'):
    seed('S01', 'P02', [('src/event.cpp', '''    void* old_value = this;
    m_state.compare_exchange_strong(old_value, nullptr, std::memory_order::acquire);''', '''    // Whatever the state was, the event is not set from now on.
    m_state.store(nullptr, std::memory_order::release);''')],
    H + '''#include <coro/event.hpp>
static int woken;
static detached wait(coro::event& e) { co_await e; woken++; }
int main() {
    coro::event e{};
    wait(e); wait(e);
    e.reset();          // a no-op: the event is not set
    e.set();
    CHECK(woken == 2, "waiters lost by reset()");
    _exit(0);
}''', 'reset() called on an unset event that already has waiters', 'a reset() drops the suspended waiters, the next set() wakes nobody', srcs='src/event.cpp')
if want('S02'):
    seed('S02', 'P01', [('src/mutex.cpp', '''            if (m_state.compare_exchange_weak(
                current,
                const_cast<void*>(unlocked_value()),
                std::memory_order::acq_rel,
                std::memory_order::acquire))
            {
                // We've successfully unlocked the mutex, return since there are no current waiters.
                std::atomic_thread_fence(std::memory_order::acq_rel);
                return;
            }
            else
            {
                // This means someone has added themselves as a waiter, we need to try again with our updated current state.
                // assert(m_state now holds a lock_operation_base*)
                continue;
            }''', '''            // We own the lock and nobody waits for it, hand it back.
            m_state.exchange(const_cast<void*>(unlocked_value()), std::memory_order::acq_rel);
            std::atomic_thread_fence(std::memory_order::acq_rel);
            return;''')],
    H + '''#include <coro/mutex.hpp>
static coro::mutex m;
static std::atomic<int> done{0}, go{0};
static detached one(int) { co_await m.lock(); m.unlock(); done++; }
int main() {
    auto body = [](int id) { for (int r = 1; r <= 400000; r++) {
        go++; while (go.load() < 2 * r) {}
        one(id);
        auto t = std::chrono::steady_clock::now();
        while (done.load() < 2 * r) if (std::chrono::steady_clock::now() - t > std::chrono::seconds(5)) { std::puts("a waiter of the mutex is lost"); std::fflush(stdout); _exit(1); }
        } };
    std::thread a(body, 0), b(body, 1); a.join(); b.join();
    _exit(0);
}''', 'a lock() that enqueues itself between the state load and the exchange in unlock()', 'the waiter is dropped: it never gets the lock', srcs='src/mutex.cpp', flags='-O2', timeout=200)
if want('S03'):
    seed('S03', 'P04', [('include/coro/semaphore.hpp', '''        co_await m_mutex.lock();
        // Do not resume or increment resources past the max_value.
        if (value() == max())
        {
            m_mutex.unlock();
            co_return;
        }
''', '''        // Do not resume or increment resources past the max_value.
        if (value() == max())
        {
            co_return;
        }

        co_await m_mutex.lock();
''')],
    H + '''#include <coro/semaphore.hpp>
static std::atomic<int> go{0}, done{0};
static coro::semaphore<1>* s;
static detached rel() { co_await s->release(); done++; }
int main() {
    auto body = [](int id) { for (int r = 1; r <= 300000; r++) {
        if (id == 0) { delete s; s = new coro::semaphore<1>{0}; }
        go++; while (go.load() < 2 * r) {}
        rel();
        while (done.load() < 2 * r) {}
        CHECK(s->value() <= 1, "value() exceeds max()");
        static std::atomic<int> sync{0}; sync++; while (sync.load() < 2 * r) {}
    } };
    std::thread a(body, 0), b(body, 1); a.join(); b.join();
    _exit(0);
}''', 'two threads releasing at the same time with one permit below the maximum', 'value() exceeds max(): a permit is created', srcs='src/mutex.cpp src/semaphore.cpp src/sync_wait.cpp', flags='-O2', timeout=200)
if want('S04'):
    seed('S04', 'P05', [('include/coro/shared_mutex.hpp', '''                // Advance the head waiter to next.
                m_head_waiter.store(head_waiter->m_next, std::memory_order::release);
            }

            m_exclusive_waiters.fetch_sub(1, std::memory_order::release);
''', '''                // Advance the head waiter to next.
                m_head_waiter.store(head_waiter->m_next, std::memory_order::release);
                m_exclusive_waiters.fetch_sub(1, std::memory_order::release);
            }
''')],
    H + '''#include <coro/coro.hpp>
static bool w, done;
static detached run(coro::task<void> t) { co_await t; done = true; }
static detached writer(coro::shared_mutex<coro::thread_pool>& m) { co_await m.lock(); w = true; }
int main() {
    auto tp = coro::thread_pool::make_unique(coro::thread_pool::options{.thread_count = 1});
    coro::shared_mutex<coro::thread_pool> m{tp};
    CHECK(m.try_lock(), "first lock");
    writer(m);
    CHECK(!w, "exclusive twice");
    run(m.unlock()); CHECK(w, "writer not woken");
    run(m.unlock());
    CHECK(m.try_lock_shared(), "first reader");
    CHECK(m.try_lock_shared(), "a second reader is refused while only readers hold the lock and nobody waits");
    _exit(0);
}''', 'an exclusive waiter that was the last waiter when it was served, then two readers', 'readers are refused (and lock_shared() suspends) although no writer waits', srcs='src/*.cpp src/detail/[!i]*.cpp src/detail/io_notifier_epoll.cpp', libs='')
if want('S05'):
    seed('S05', 'P09', [('include/coro/queue.hpp', '''            // Return if stopped.
            if (m_running_state.load(std::memory_order::acquire) == running_state_t::stopped)''', '''            // Return if stopped.
            if (m_running_state.load(std::memory_order::acquire) != running_state_t::running)''')],
    H + '''#include <coro/coro.hpp>
static detached run(coro::task<void> t) { co_await t; }
struct op { bool await_ready() noexcept {return false;} void await_suspend(std::coroutine_handle<> h) noexcept { q.push_back(h);} void await_resume() noexcept {} static inline std::vector<std::coroutine_handle<>> q; };
struct ex { auto schedule() { return op{}; } auto yield() { return op{}; } auto spawn_detached(coro::task<void>&&) -> bool { return false; } auto spawn_joinable(coro::task<void>&& t) -> coro::task<void> { return std::move(t); }
 auto resume(std::coroutine_handle<> h) -> bool { h.resume(); return true; } auto size() -> std::size_t { return 0; } auto empty() -> bool { return true; } auto shutdown() -> void {} };
static detached push(coro::queue<int>& q, int v) { co_await q.push(v); }
int main() {
    auto tp = coro::thread_pool::make_unique(coro::thread_pool::options{.thread_count = 1});
    coro::queue<int> q;
    push(q, 1); push(q, 2);
    run(q.shutdown_drain(tp));
    for (int want = 1; want <= 2; want++) {
        for (int i = 0;; i++) {
            auto e = q.try_pop();
            if (e) { CHECK(*e == want, "wrong element"); break; }
            CHECK(e.error() == coro::queue_consume_result::try_lock_failure, "try_pop() reports stopped while the queue still drains");
        }
    }
    _exit(0);
}''', 'try_pop() between shutdown_drain() and the last element', 'elements cannot be popped while the queue drains: the drain never ends', srcs='src/*.cpp src/detail/[!i]*.cpp src/detail/io_notifier_epoll.cpp')
if want('S06'):
    seed('S06', 'P12', [('include/coro/task.hpp', '''        if (m_exception_ptr)
        {
            std::rethrow_exception(m_exception_ptr);
        }
    }

private:
    std::exception_ptr m_exception_ptr{nullptr};''', '''        if (auto exception = std::exchange(m_exception_ptr, nullptr))
        {
            std::rethrow_exception(std::move(exception));
        }
    }

private:
    std::exception_ptr m_exception_ptr{nullptr};''')],
    H + '''#include <coro/task.hpp>
static coro::task<void> bad() { throw std::runtime_error{"x"}; co_return; }
static int caught;
static detached twice(coro::task<void>& t) { for (int i = 0; i < 2; i++) try { co_await t; } catch (const std::runtime_error&) { caught++; } }
int main() { auto t = bad(); twice(t); CHECK(caught == 2, "the second co_await of a failed task reports success"); _exit(0); }
''', 'a failed task<void> awaited twice (as an lvalue)', 'the exception is delivered only once, later awaiters see success')
if want('S07'):
    seed('S07', 'P11', [('include/coro/thread_pool.hpp', '''        if (null_handles > 0)
        {
            m_size.fetch_sub(null_handles, std::memory_order::release);
        }

        std::size_t total = std::size(handles) - null_handles;
''', '''        std::size_t total = std::size(handles) - null_handles;
        if (total == 0)
        {
            return 0; // Nothing to wake the executors for.
        }

        if (null_handles > 0)
        {
            m_size.fetch_sub(null_handles, std::memory_order::release);
        }

''')],
    H + '''#include <coro/coro.hpp>
int main() {
    auto tp = coro::thread_pool::make_unique(coro::thread_pool::options{.thread_count = 1});
    std::vector<std::coroutine_handle<>> v{nullptr, nullptr};
    CHECK(tp->resume(v) == 0, "resumed null handles");
    CHECK(tp->empty(), "size() counts null handles");
    _exit(0);
}''', 'resume() of a range with null handles only', 'size() never drops to zero again', srcs='src/*.cpp src/detail/[!i]*.cpp src/detail/io_notifier_epoll.cpp')
if want('S08'):
    seed('S08', 'P15', [('include/coro/when_any.hpp', '''    auto expected = false;
    auto result   = co_await static_cast<awaitable&&>(a);
    // Its important to only touch return_value and notify once since their lifetimes will be destroyed
    // after being set and notified the first time.
    if (first_completed.compare_exchange_strong(expected, true, std::memory_order::acq_rel, std::memory_order::relaxed))
    {
        return_value = std::move(result);
        notify.set();
    }
''', '''    auto expected = false;
    auto& value   = return_value;
    auto result   = co_await static_cast<awaitable&&>(a);
    // Only the first one to complete notifies.
    if (!value.has_value())
    {
        value = std::move(result);
    }
    if (first_completed.compare_exchange_strong(expected, true, std::memory_order::acq_rel, std::memory_order::relaxed))
    {
        notify.set();
    }
''')],
    H + '''#include <coro/when_any.hpp>
#include <coro/event.hpp>
static coro::task<int> now(int v) { co_return v; }
static coro::task<int> later(coro::event& e, int v) { co_await e; co_return v; }
static int got;
static detached run(coro::event& a, coro::event& b) { std::vector<coro::task<int>> v; v.emplace_back(later(a, 1)); v.emplace_back(later(b, 2)); got = co_await coro::when_any(std::move(v)); }
int main() { coro::event a, b; run(a, b); b.set(); CHECK(got == 2, "wrong result"); a.set(); return 0; }
''', 'a task that finishes after when_any() has returned', 'the late finisher touches the result of the destroyed when_any coroutine', srcs='src/event.cpp src/mutex.cpp src/detail/task_self_deleting.cpp', flags='-O0 -g -fsanitize=address')
if want('S09'):
    seed('S09', 'P17', [('include/coro/generator.hpp', '''            if (m_coroutine)
            {
                m_coroutine.destroy();
            }
            m_coroutine = std::exchange(other.m_coroutine, nullptr);''', '''            if (m_coroutine && m_coroutine.done())
            {
                m_coroutine.destroy();
            }
            m_coroutine = std::exchange(other.m_coroutine, nullptr);''')],
    H + '''#include <coro/generator.hpp>
static int live;
struct obj { obj() { live++; } ~obj() { live--; } };
static coro::generator<int> g() { obj o; co_yield 1; co_yield 2; }
int main() { { auto a = g(); auto it = a.begin(); CHECK(*it == 1, "value"); a = g(); } CHECK(live == 0, "locals of an abandoned generator are never destroyed"); _exit(0); }
''', 'assignment to a generator that is suspended at a yield', 'the frame of the overwritten generator and its locals leak')
if want('S10'):
    seed('S10', 'P26', [('include/coro/net/socket_address.hpp', '''            return ntohs(reinterpret_cast<const sockaddr_in6*>(&m_storage)->sin6_port);''', '''            return reinterpret_cast<const sockaddr_in6*>(&m_storage)->sin6_port;'''),
                        ('include/coro/net/socket_address.hpp', '''            sin6->sin6_port   = htons(port);''', '''            sin6->sin6_port   = port;''')],
    H + '''#include <coro/net/socket_address.hpp>
#include <netinet/in.h>
int main() { coro::net::socket_address a{coro::net::ip_address::from_string("::1", coro::net::domain_t::ipv6), 8080};
  auto [p, n] = a.data(); CHECK(ntohs(reinterpret_cast<const sockaddr_in6*>(p)->sin6_port) == 8080, "the kernel sees another port"); _exit(0); }
''', 'an IPv6 address with a port that is not a byte palindrome', 'port() still round-trips, the sockaddr given to the kernel holds a different port')
if want('S11'):
    seed('S11', 'P27', [('src/net/io_status.cpp', '''        case poll_status::read:
        case poll_status::write:
            return io_status{io_status::kind::ok};
''', '''        case poll_status::read:
        case poll_status::write:
        case poll_status::closed: // There may still be data to read.
            return io_status{io_status::kind::ok};
'''), ('src/net/io_status.cpp', '''        case poll_status::closed:
            return io_status{io_status::kind::closed};
''', '')],
    H + '''#include <coro/net/io_status.hpp>
int main() { CHECK(coro::net::make_io_status_from_poll_status(coro::poll_status::closed).is_closed(), "closed is reported as success"); _exit(0); }
''', 'a poll that ends because the peer closed', 'poll_status::closed is reported as ok', srcs='src/net/io_status.cpp src/poll.cpp')
if want('S12'):
    seed('S12', 'P29', [('src/default_executor.cpp', '''    if (s_default_executor_init.exchange(true) == false)
    {''', '''    if (s_default_executor_init.load(std::memory_order::acquire) == false)
    {'''), ('src/default_executor.cpp', '''        s_default_executor_ptr.store(s_default_executor.get(), std::memory_order::release);''', '''        s_default_executor_ptr.store(s_default_executor.get(), std::memory_order::release);
        s_default_executor_init.store(true, std::memory_order::release);''')],
    H + '''#include <coro/default_executor.hpp>
int main() {
    std::atomic<int> go{0}, inits{0};
    coro::default_executor::set_executor_options(coro::thread_pool::options{.thread_count = 1, .on_thread_start_functor = [&](std::size_t) { inits++; }});
    std::vector<std::thread> t;
    for (int i = 0; i < 8; i++) t.emplace_back([&]() { go++; while (go < 8) {} coro::default_executor::executor(); });
    for (auto& x : t) x.join();
    std::this_thread::sleep_for(std::chrono::milliseconds(200));
    CHECK(inits == 1, "more than one default executor was created");
    _exit(0);
}''', 'several threads making the first call to executor() at once', 'the default executor is created more than once', srcs='src/*.cpp src/detail/[!i]*.cpp src/detail/io_notifier_epoll.cpp')
if want('S13'):
    seed('S13', 'P03', [('include/coro/latch.hpp', '''        if (m_count.fetch_sub(n, std::memory_order::acq_rel) <= n)
        {
            m_event.set(executor);
        }''', '''        if (m_count.fetch_sub(n, std::memory_order::acq_rel) == n)
        {
            m_event.set(executor);
        }''')],
    H + '''#include <coro/coro.hpp>
int main() {
    auto tp = coro::thread_pool::make_unique(coro::thread_pool::options{.thread_count = 1});
    coro::latch l{1};
    l.count_down(tp, 2);
    CHECK(l.is_ready(), "a latch counted down below zero is not ready");
    _exit(0);
}''', 'a count_down(executor, n) by more than what remains', 'the latch is never ready', srcs='src/*.cpp src/detail/[!i]*.cpp src/detail/io_notifier_epoll.cpp')
if want('S14'):
    seed('S14', 'P21', [('src/detail/pipe.cpp', '''    if (m_fds[0] != -1)
    {
        ::close(m_fds[0]);
        m_fds[0] = -1;
    }

    if (m_fds[1] != -1)
    {
        ::close(m_fds[1]);
        m_fds[1] = -1;
    }''', '''    for (auto& fd : m_fds)
    {
        if (fd > 0)
        {
            ::close(fd);
        }
    }''')],
    H + '''#include <coro/detail/pipe.hpp>
#include <fcntl.h>
int main() {
    coro::detail::pipe_t* p = new coro::detail::pipe_t{};
    p->close();
    int fd = ::open("/dev/null", O_RDONLY);    // reuses the number
    delete p;
    CHECK(::fcntl(fd, F_GETFD) != -1, "the pipe closed a descriptor it does not own");
    _exit(0);
}''', 'close() followed by the destructor after the descriptor number was reused', 'a descriptor is closed twice: somebody else\'s file is closed', srcs='src/detail/pipe.cpp')
if want('S15'):
    seed('S15', 'P10', [('src/condition_variable.cpp', '''auto condition_variable::awaiter_with_predicate::on_notify() -> coro::task<condition_variable::notify_status_t>
{
    co_await m_lock.m_mutex->lock();
    if (m_predicate())
    {''', '''auto condition_variable::awaiter_with_predicate::on_notify() -> coro::task<condition_variable::notify_status_t>
{
    const bool ready = m_predicate();
    co_await m_lock.m_mutex->lock();
    if (ready)
    {''')],
    H + '''#include <coro/coro.hpp>
static coro::condition_variable cv; static coro::mutex m; static bool flag; static bool seen_false, woke;
static detached waiter() { auto lk = co_await m.scoped_lock(); co_await cv.wait(lk, []() { return flag; }); woke = true; if (!flag) seen_false = true; }
static detached notify() { co_await cv.notify_one(); }
int main() {
    waiter();
    CHECK(m.try_lock(), "lock");
    flag = true;
    notify();            // has to wait for the lock
    flag = false;        // withdrawn before the lock is released
    m.unlock();
    CHECK(!seen_false, "wait() returned although the predicate is false under the lock");
    flag = true; notify(); CHECK(woke, "never woken");
    _exit(0);
}''', 'the predicate turns false again before the notifier gets the lock', 'wait(lock, predicate) returns with a false predicate', srcs='src/*.cpp src/detail/[!i]*.cpp src/detail/io_notifier_epoll.cpp')
