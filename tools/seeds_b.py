#!/usr/bin/env python3
from seed import seed, want
H = open(__file__.replace('seeds_b', 'seeds_a')).read().split("H = '''")[1].split("'''")[0]
H = H.replace('#include <cstdio>', '#include <cstdio>\n#include <cstring>\n#include <string>\n#include <memory>\n#include <functional>\n#include <sys/socket.h>\n#include <netinet/in.h>')
NET = 'src/*.cpp src/detail/[!i]*.cpp src/detail/io_notifier_epoll.cpp src/net/*.cpp src/net/tcp/*.cpp src/net/udp/*.cpp'
ASAN = '-O1 -g -fsanitize=address'
if want('S16'):
    seed('S16', 'P01', [('include/coro/mutex.hpp', '''            unlock();
            m_mutex = std::exchange(other.m_mutex, nullptr);''', '''            m_mutex = std::exchange(other.m_mutex, nullptr);''')],
    H + '''#include <coro/mutex.hpp>
int main() {
    coro::mutex a, b;
    (void)a.try_lock(); (void)b.try_lock();
    {
        coro::scoped_lock la{a}, lb{b};
        la = std::move(lb);
        CHECK(a.try_lock(), "a scoped_lock that takes over another mutex keeps its old one locked");
        a.unlock();
        CHECK(!b.try_lock(), "released");
    }
    CHECK(b.try_lock(), "b is still locked");
    b.unlock();
    _exit(0);
}''', 'move assigning a scoped_lock that still holds another mutex', 'the mutex it held before is never released', srcs='src/mutex.cpp')
if want('S17'):
    seed('S17', 'P06', [('include/coro/ring_buffer.hpp', '''        auto result = co_await produce_operation{*this, std::move(e)};
        co_await try_resume_consumers();
        co_return result;''', '''        produce_operation op{*this, std::move(e)};
        auto result = co_await op;
        // If the producer had to wait for a slot then it was a consumer that made room, no consumer is waiting.
        if (op.m_awaiting_coroutine == nullptr)
        {
            co_await try_resume_consumers();
        }
        co_return result;''')],
    H + '''#include <coro/ring_buffer.hpp>
static std::atomic<int> got{0}, made{0}, go{0};
static detached prod(coro::ring_buffer<int, 1>& r, int v) { co_await r.produce(v); made++; }
static detached cons(coro::ring_buffer<int, 1>& r) { auto x = co_await r.consume(); if (x) got++; }
int main() {
    auto* r = new coro::ring_buffer<int, 1>{};
    for (int i = 1; i <= 400000; i++) {
        got = made = 0;
        prod(*r, 1); prod(*r, 2);
        std::atomic<int>* g = &go;
        static std::atomic<int> round{0}, done{0};
        static bool started = false;
        if (!started) { started = true; std::thread([r] { int n = 0; while (true) { while (round.load() <= n) {} n++; cons(*r); done++; } }).detach(); }
        done = 0; round++;
        for (volatile int d = 0; d < i % 64; d++) {}
        cons(*r);
        while (done.load() < 1) {}
        (void)g;
        auto t = std::chrono::steady_clock::now();
        while (got.load() < 2) CHECK(std::chrono::steady_clock::now() - t < std::chrono::seconds(3), "a consumer sleeps while an element is buffered");
    }
    _exit(0);
}''', 'a consumer that starts waiting between another consumer taking the last element and it moving the element of a waiting producer into the buffer', 'the consumer keeps waiting although an element is buffered', srcs='src/mutex.cpp src/sync_wait.cpp', flags='-O2', timeout=200)
if want('S18'):
    seed('S18', 'P07', [('include/coro/ring_buffer.hpp', '''            auto* next = produce_waiters->m_next;
            produce_waiters->m_result = ring_buffer_result::produce::notified;
            produce_waiters->m_awaiting_coroutine.resume();
            produce_waiters = next;''', '''            produce_waiters->m_result = ring_buffer_result::produce::notified;
            produce_waiters->m_awaiting_coroutine.resume();
            produce_waiters = produce_waiters->m_next;''')],
    H + '''#include <coro/ring_buffer.hpp>
static int notified;
static detached prod(coro::ring_buffer<int, 1>& r, int v) { if (co_await r.produce(v) == coro::ring_buffer_result::produce::notified) notified++; }
static detached notify(coro::ring_buffer<int, 1>& r) { co_await r.notify_producers(); }
int main() {
    coro::ring_buffer<int, 1> r{};
    prod(r, 1); prod(r, 2); prod(r, 3);
    notify(r);
    CHECK(notified == 2, "not every producer is notified");
    _exit(0);
}''', 'notify_producers() with suspended producers whose frames go away when they continue', 'reads the finished operation of a destroyed coroutine frame, waiters are missed', srcs='src/mutex.cpp src/sync_wait.cpp', flags=ASAN)
if want('S19'):
    seed('S19', 'P08', [('include/coro/queue.hpp', '''            lock.unlock();

            waiter->m_element.emplace(std::forward<args_type>(args)...);
            waiter->m_awaiting_coroutine.resume();''', '''            lock.unlock();

            waiter->m_element.emplace(args...);
            waiter->m_awaiting_coroutine.resume();''')],
    H + '''#include <coro/queue.hpp>
struct item { std::string s; item() {} item(std::string&& x) : s(std::move(x)) {} item(const std::string& x) : s("copy of " + x) {} };
static std::string got;
static detached pop(coro::queue<item>& q) { auto x = co_await q.pop(); if (x) got = x->s; }
static detached put(coro::queue<item>& q) { co_await q.emplace(std::string("v")); }
int main() {
    coro::queue<item> q{};
    pop(q);
    put(q);
    CHECK(got == "v", "the waiting consumer got another element than the one constructed from the arguments");
    _exit(0);
}''', 'emplace() while a consumer is waiting, with arguments whose value category matters', 'the element handed to the waiter is built from lvalues', srcs='src/mutex.cpp src/sync_wait.cpp')
if want('S20'):
    seed('S20', 'P13', [('src/sync_wait.cpp', '''    {
        std::unique_lock<std::mutex> lk{m_mutex};
        m_set.exchange(true, std::memory_order::seq_cst);
        m_cv.notify_all();
    }''', '''    m_set.exchange(true, std::memory_order::seq_cst);
    m_cv.notify_all();''')],
    H + '''#include <coro/sync_wait.hpp>
#include <coro/task.hpp>
#include <coro/event.hpp>
static std::atomic<coro::event*> ev{nullptr};
static std::atomic<int> delay{0}, round_{0};
int main() {
    std::thread([] { while (true) { auto* e = ev.exchange(nullptr); if (e) { for (volatile int d = 0; d < delay; d++) {} e->set(); } } }).detach();
    std::thread([] { int seen = -1; while (true) { std::this_thread::sleep_for(std::chrono::seconds(5)); int n = round_.load(); if (n == seen) { std::puts("sync_wait hangs"); std::fflush(stdout); _exit(1); } seen = n; } }).detach();
    auto b = std::chrono::steady_clock::now();
    for (int i = 0; std::chrono::steady_clock::now() - b < std::chrono::seconds(100); i++) {
        auto* e = new coro::event{};
        delay = i % 200; round_ = i;
        ev = e;
        coro::sync_wait([](coro::event& e) -> coro::task<void> { co_await e; }(*e));
    }
    _exit(0);
}''', 'the awaited coroutine completes between the check of the flag and the wait of the condition variable', 'the wake-up is lost, sync_wait hangs', srcs='src/sync_wait.cpp src/event.cpp', flags='-O2', timeout=200)
if want('S21'):
    seed('S21', 'P14', [('include/coro/when_all.hpp', '''        m_awaiting_coroutine = awaiting_coroutine;
        return m_count.fetch_sub(1, std::memory_order::acq_rel) > 1;''', '''        // Everything has already completed, no need to suspend.
        if (m_count.fetch_sub(1, std::memory_order::acq_rel) == 1)
        {
            return false;
        }
        m_awaiting_coroutine = awaiting_coroutine;
        return true;''')],
    H + '''#include <coro/when_all.hpp>
#include <coro/sync_wait.hpp>
#include <coro/event.hpp>
int main() {
    static std::atomic<coro::event*> ev{nullptr};
    static std::atomic<int> delay{0};
    std::thread([] { while (true) { auto* e = ev.exchange(nullptr); if (e) { for (volatile int d = 0; d < delay; d++) {} e->set(); } } }).detach();
    std::thread([] { int seen = -1; while (true) { std::this_thread::sleep_for(std::chrono::seconds(10)); int n = delay.load(); if (n == seen) { std::puts("hang"); std::fflush(stdout); _exit(1); } seen = n; } }).detach();
    for (int i = 0; i < 3000000; i++) {
        auto* e = new coro::event{};
        auto wait = [](coro::event& e) -> coro::task<int> { co_await e; co_return 1; };
        auto both = [&]() -> coro::task<void> {
            auto w = wait(*e);
            delay = i % 50; ev = e;
            auto r = co_await coro::when_all(std::move(w));
            (void)r; };
        coro::sync_wait(both());
    }
    _exit(0);
}''', 'the last awaitable completes between the decrement of the latch and the store of the awaiting coroutine', 'resumes a null coroutine handle, the awaiting coroutine is lost', srcs='src/sync_wait.cpp src/event.cpp', flags='-O2', timeout=200)
if want('S22'):
    seed('S22', 'P19', [('src/scheduler.cpp', '''        if (pi->m_timer_pos.has_value())
        {
            remove_timer_token(pi->m_timer_pos.value());
        }
''', '''        if (pi->m_timer_pos.has_value() && status != poll_status::closed && status != poll_status::error)
        {
            remove_timer_token(pi->m_timer_pos.value());
        }
''')],
    H + '''#include <coro/scheduler.hpp>
#include <coro/sync_wait.hpp>
int main() {
    auto s = coro::scheduler::make_unique({.thread_strategy = coro::scheduler::thread_strategy_t::spawn, .execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline});
    auto t = [](std::unique_ptr<coro::scheduler>& s) -> coro::task<void> {
        int p[2]; if (::pipe(p)) co_return;
        ::close(p[1]);
        co_await s->schedule();
        auto st = co_await s->poll(p[0], coro::poll_op::read, std::chrono::milliseconds(200));
        CHECK(st == coro::poll_status::closed || st == coro::poll_status::error , "status");
        co_await s->yield_for(std::chrono::milliseconds(400));
    };
    coro::sync_wait(t(s));
    s->shutdown();
    CHECK(s->size() == 0, "size");
    _exit(0);
}''', 'a poll with a timeout that ends with an error or a hang-up of the descriptor', 'its timer stays in the list and refers to the destroyed operation', srcs=NET, flags=ASAN)
if want('S23'):
    seed('S23', 'P20', [('src/scheduler.cpp', '''    // Note to all producers that the pipe is cleared and any new additions need to trigger the pipe.
    m_schedule_pipe_triggered.exchange(false, std::memory_order::release);

    // Now it is safe to acquire all scheduled ops.
    auto* ops = detail::awaiter_list_pop_all(m_scheduled_ops);
''', '''    // Acquire all scheduled ops.
    auto* ops = detail::awaiter_list_pop_all(m_scheduled_ops);

    // Note to all producers that the pipe is cleared and any new additions need to trigger the pipe.
    m_schedule_pipe_triggered.exchange(false, std::memory_order::release);
''')],
    H + '''#include <coro/scheduler.hpp>
static std::atomic<int> ran{0};
static coro::task<void> t() { ran++; co_return; }
int main() {
    auto s = coro::scheduler::make_unique({.thread_strategy = coro::scheduler::thread_strategy_t::spawn, .execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline});
    for (int i = 0; i < 400000; i++) {
        ran = 0;
        s->spawn_detached(t());
        for (volatile int d = 0; d < i % 2000; d++) {}
        s->spawn_detached(t());
        auto b = std::chrono::steady_clock::now();
        while (ran < 2) CHECK(std::chrono::steady_clock::now() - b < std::chrono::seconds(3), "a scheduled coroutine is never run");
    }
    _exit(0);
}''', 'a coroutine is scheduled between the event loop taking the list and clearing the trigger flag', 'nobody wakes the event loop for it', srcs=NET, flags='-O2', timeout=200)
if want('S24'):
    seed('S24', 'P22', [('include/coro/net/tcp/client.hpp', '''                    // Returning read prefix of the span
                    co_return {
                        io_status{io_status::kind::timeout}, buffer.subspan(0, buffer.size() - remaining.size())};
                }
                remaining_timeout = timeout - elapsed;''', '''                    // Returning read prefix of the span
                    co_return {
                        io_status{io_status::kind::timeout}, buffer.subspan(0, buffer.size() - remaining.size())};
                }
                remaining_timeout = timeout;''')],
    H + '''#include <coro/net/tcp/client.hpp>
#include <coro/net/tcp/server.hpp>
#include <coro/sync_wait.hpp>
#include <coro/when_all.hpp>
#include <arpa/inet.h>
using namespace std::chrono_literals;
int main() {
    auto s = coro::scheduler::make_unique({.thread_strategy = coro::scheduler::thread_strategy_t::spawn, .execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline});
    int l = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t n = sizeof a;
    if (bind(l, (sockaddr*)&a, n) || listen(l, 4) || getsockname(l, (sockaddr*)&a, &n)) _exit(0);
    auto t = [&]() -> coro::task<void> {
        coro::net::tcp::client c{s, coro::net::socket_address{"127.0.0.1", ntohs(a.sin_port)}};
        co_await c.connect(1s);
        int p = ::accept(l, nullptr, nullptr);
        std::thread w{[p] { std::this_thread::sleep_for(700ms); (void)!::write(p, "x", 1); }};
        std::string buf(4, 0);
        auto b = std::chrono::steady_clock::now();
        auto [st, sp] = co_await c.read_exact(buf, 1000ms);
        auto e = std::chrono::steady_clock::now() - b;
        w.join();
        CHECK(!st.is_ok(), "ok?");
        CHECK(e < 1400ms, "read_exact took much longer than its timeout");
        ::close(p);
    };
    coro::sync_wait(t());
    _exit(0);
}''', 'a peer that sends some bytes shortly before the timeout of read_exact() ends', 'the wait for the rest starts over with the full timeout', srcs=NET)
if want('S25'):
    seed('S25', 'P23', [('src/net/tcp/client.cpp', '''                co_return return_value(connect_status::timeout);''', '''                // The connection could still be established later, let the user try again.
                co_return connect_status::timeout;''')],
    H + '''#include <coro/net/tcp/client.hpp>
#include <coro/sync_wait.hpp>
#include <arpa/inet.h>
using namespace std::chrono_literals;
int main() {
    // A listener with a full backlog: connects neither succeed nor fail.
    int l = ::socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t n = sizeof a;
    if (bind(l, (sockaddr*)&a, n) || listen(l, 0) || getsockname(l, (sockaddr*)&a, &n)) _exit(0);
    auto s = coro::scheduler::make_unique({.thread_strategy = coro::scheduler::thread_strategy_t::spawn, .execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline});
    std::vector<int> fill;
    for (int i = 0; i < 8; i++) { int f = ::socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); (void)!::connect(f, (sockaddr*)&a, n); fill.push_back(f); }
    std::this_thread::sleep_for(200ms);
    auto t = [&]() -> coro::task<void> {
        coro::net::tcp::client c{s, coro::net::socket_address{"127.0.0.1", ntohs(a.sin_port)}};
        auto r = co_await c.connect(100ms);
        if (r != coro::net::connect_status::timeout) co_return;
        for (int i = 0; i < 9; i++) { int f = ::accept4(l, nullptr, nullptr, SOCK_NONBLOCK); if (f >= 0) ::close(f); }
        std::this_thread::sleep_for(3500ms);
        auto q = co_await c.connect(500ms);
        CHECK(q == coro::net::connect_status::timeout, "a repeated connect() reports another status");
    };
    coro::sync_wait(t());
    _exit(0);
}''', 'connect() called again after it timed out', 'the second call does not report the status of the first', srcs=NET)
if want('S26'):
    seed('S26', 'P24', [('include/coro/net/udp/peer.hpp', '''        auto pstatus = co_await poll(poll_op::read, timeout);
        if (pstatus != poll_status::read)
        {
            co_return {make_io_status_from_poll_status(pstatus), socket_address::make_uninitialised(), {}};
        }
        m_is_read_ready = true;
''', '''        auto pstatus = co_await poll(poll_op::read, timeout);
        // Remember the readiness of the socket so the next read does not poll.
        m_is_read_ready = (pstatus != poll_status::timeout);
        if (!m_is_read_ready)
        {
            co_return {io_status{io_status::kind::timeout}, socket_address::make_uninitialised(), {}};
        }
''')],
    H + '''#include <coro/net/udp/peer.hpp>
#include <coro/sync_wait.hpp>
#include <coro/when_all.hpp>
using namespace std::chrono_literals;
int main() {
    auto s = coro::scheduler::make_unique({.thread_strategy = coro::scheduler::thread_strategy_t::spawn, .execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline});
    auto t = [&]() -> coro::task<void> {
        coro::net::udp::peer p{s, coro::net::socket_address{"127.0.0.1", 0}};
        std::string a(8, 0), b(8, 0);
        // Two reads of one peer: the second cannot be registered with epoll, this is a polling error.
        auto first = p.read_from(a, 300ms);
        auto second = p.read_from(b, 300ms);
        auto [x, y] = co_await coro::when_all(std::move(first), std::move(second));
        auto& [sx, ax, dx] = x.return_value();
        auto& [sy, ay, dy] = y.return_value();
        CHECK(sx.type == coro::net::io_status::kind::timeout, "first");
        CHECK(sy.type == coro::net::io_status::kind::polling_error, "the error of the poll is masked");
    };
    coro::sync_wait(t());
    _exit(0);
}''', 'a poll of the peer that ends with closed or error instead of read', 'the status of the poll is masked by the following recvfrom()', srcs=NET)
if want('S27'):
    seed('S27', 'P26', [('include/coro/net/socket_address.hpp', '''        return m_len == other.m_len && domain() == other.domain() && port() == other.port() && ip() == other.ip();''',
    '''        return m_len == other.m_len && std::memcmp(&m_storage, &other.m_storage, std::min<size_t>(m_len, sizeof(sockaddr_in))) == 0;''')],
    H + '''#include <coro/net/socket_address.hpp>
int main() {
    auto v6 = coro::net::domain_t::ipv6;
    coro::net::socket_address a{"fe80::1", 80, v6}, b{"fe80::2", 80, v6}, c{"fe80::1", 80, v6};
    CHECK(!(a == b), "different addresses are equal");
    CHECK(a == c, "equal");
    _exit(0);
}''', 'two IPv6 addresses that differ only in their low bytes', 'operator== says they are equal', srcs='src/net/*.cpp')
if want('S28'):
    seed('S28', 'P29', [('src/default_executor.cpp', '''    while (s_default_io_executor_ptr.load(std::memory_order::acquire) == nullptr)
    {
        std::this_thread::sleep_for(s_initialization_check_interval);
    }
''', '''    if (s_default_io_executor_ptr.load(std::memory_order::acquire) == nullptr)
    {
        // Somebody else is creating it right now, give it a moment.
        std::this_thread::sleep_for(s_initialization_check_interval);
    }
''')],
    H + '''#include <coro/default_executor.hpp>
#include <sys/wait.h>
int main() {
    // The options are slow to copy: their functors hold an object with a slow copy constructor.
    struct slow { slow() {} slow(const slow&) { std::this_thread::sleep_for(std::chrono::milliseconds(30)); } slow(slow&&) noexcept {} void operator()() const {} };
    coro::scheduler::options o{}; o.on_io_thread_start_functor = slow{};
    coro::default_executor::set_io_executor_options(std::move(o));
    std::atomic<int> bad{0};
    auto f = [&] { if (coro::default_executor::io_executor() == nullptr) bad++; };
    std::thread a(f), b(f); a.join(); b.join();
    CHECK(!bad, "a caller got no executor");
    _exit(0);
}''', 'a second thread asks for the io executor while the first still builds it for longer than a millisecond', 'the second caller gets a null executor', srcs=NET)
if want('S29'):
    seed('S29', 'P30', [('include/coro/net/dns/resolver.hpp', '''        auto& result = *static_cast<coro::net::dns::result<executor_type>*>(arg);
        --result.m_pending_dns_requests;
''', '''        auto& result = *static_cast<coro::net::dns::result<executor_type>*>(arg);
        // A query that is given up because the channel goes away has no result to report.
        if (status == ARES_EDESTRUCTION)
        {
            return;
        }
        --result.m_pending_dns_requests;
''')],
    H + '''#include <coro/scheduler.hpp>
#include <coro/net/dns/resolver.hpp>
#include <coro/sync_wait.hpp>
using namespace std::chrono_literals;
static std::atomic<int> done{0};
static detached look(coro::net::dns::resolver<coro::scheduler>& r) { auto x = co_await r.host_by_name(coro::net::hostname{"www.example.com"}); if (x->status() == coro::net::dns::status::error) done = 1; else done = 2; }
int main() {
    // A name server that never answers.
    auto s = coro::scheduler::make_unique({.thread_strategy = coro::scheduler::thread_strategy_t::spawn, .execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline});
    int u = ::socket(AF_INET, SOCK_DGRAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(53);
    if (bind(u, (sockaddr*)&a, sizeof a)) _exit(0);
    auto* r = new coro::net::dns::resolver<coro::scheduler>{s, 200ms};
    look(*r);
    delete r;
    for (int i = 0; i < 300 && !done; i++) std::this_thread::sleep_for(10ms);
    CHECK(done != 0, "the lookup of a destroyed resolver never ends");
    _exit(0);
}''', 'the resolver is destroyed while a lookup is pending', 'the caller of host_by_name is never resumed', srcs=NET, libs='-lcares')
