// tcp::client::connect and tcp::server::accept report the kernel's outcome.
#include "hx.hpp"
#include "env.hpp"
#include <cerrno>
#include <coro/net/tcp/client.hpp>
#include <coro/net/tcp/server.hpp>
#include <cstring>
#include <fcntl.h>
#include <netinet/in.h>
#include <optional>
#include <sys/socket.h>
#ifndef MODE // 0 connect, 1 accept
#define MODE 0
#endif
#ifndef STEPS
#define STEPS 3
#endif
#ifndef ROUNDS
#define ROUNDS 2
#endif
#ifndef V6
#define V6 0
#endif
using namespace std::chrono;
using coro::net::connect_status;
using coro::net::io_status;
static coro::scheduler*        S;
static coro::net::tcp::client* Cl;
static coro::net::tcp::server* Sv;
static int                     fd, done, began;
static unsigned                seen;
static long long               due;
static bool                    settle;
static void ready(unsigned m)
{
    seen |= m;
    env::set_ready(fd, m);
}
static bool native_ok(io_status s, int e)
{
    using k = io_status::kind;
    k x     = e == ECONNREFUSED ? k::connection_refused : e == ECONNRESET ? k::connection_reset : e == EAGAIN ? k::would_block_or_try_again : e == EMSGSIZE ? k::message_too_big : k::native;
    return (s.type == x) & (s.native_code == e);
}
#if MODE == 0
static int  connects, cerr, gets, soerr;
static bool getfail;
extern "C" int symrt_connect(int f, const sockaddr* a, socklen_t n)
{
    connects++;
    SYM_ASSERT(connects == 1, "the connection is attempted again");
    SYM_ASSERT(f == fd, "another descriptor is used");
#if V6
    auto* s = (const sockaddr_in6*)a;
    SYM_ASSERT(n >= sizeof(*s) && s->sin6_family == AF_INET6 && s->sin6_port == htons(8080) && s->sin6_addr.s6_addr[15] == 1, "another address is connected to");
#else
    auto* s = (const sockaddr_in*)a;
    SYM_ASSERT(n >= sizeof(*s) && s->sin_family == AF_INET && s->sin_port == htons(8080) && s->sin_addr.s_addr == htonl(0x7f000001), "another address is connected to");
#endif
    cerr = (int)sym::range(0, 133, 8);
    if (cerr == 0) return 0;
    errno = cerr;
    return -1;
}
extern "C" int symrt_getsockopt(int f, int lvl, int opt, void* v, socklen_t* n)
{
    SYM_ASSERT(f == fd && lvl == SOL_SOCKET && opt == SO_ERROR && *n == sizeof(int), "the error of the connection is not asked for");
    gets++;
    getfail = sym::flip();
    soerr   = (int)sym::range(0, 133, 8);
    if (getfail) { errno = ENOBUFS; return -1; }
    *(int*)v = soerr;
    return 0;
}
#ifdef MOVED
static std::optional<coro::net::tcp::client> Made;
static std::unique_ptr<coro::scheduler>*     U;
static coro::net::socket_address             Ad{V6 ? "::1" : "127.0.0.1", 8080, V6 ? coro::net::domain_t::ipv6 : coro::net::domain_t::ipv4};
#endif
static hx::detached user(milliseconds to)
{
    connect_status first{};
    for (int r = 0; r < ROUNDS; r++)
    {
#ifdef MOVED
        // what connect() is called on again is the original, or one that was moved or copied from it
        if (r == 1)
        {
            auto how = sym_concretize(sym::range(0, 4, 3));
            if (how == 1) Made.emplace(std::move(*Cl));
            else if (how == 2) { Made.emplace(*U, Ad); *Made = std::move(*Cl); }
            else if (how == 3) Made.emplace(*Cl);
            else if (how == 4) { Made.emplace(*U, Ad); *Made = *Cl; }
            if (Made) { Cl = &*Made; sym_reach(30); }
        }
#endif
        due = to.count() > 0 && r == 0 ? coro::clock::now().time_since_epoch().count() + to.count() * 1000000 : due;
        began++;
        auto st  = co_await Cl->connect(to);
        done++;
        SYM_ASSERT(done == began, "connect() finishes twice");
        auto now = coro::clock::now().time_since_epoch().count();
        if (r == 0) first = st;
        else SYM_ASSERT(st == first, "a repeated connect() returns another status");
        bool progress = cerr == EINPROGRESS || cerr == EAGAIN;
        bool up       = cerr == 0 || (progress && (seen & EPOLLOUT) && gets == 1 && !getfail && soerr == 0);
        switch (st)
        {
            case connect_status::connected: SYM_ASSERT(up, "connected although the kernel did not establish the connection"); break;
            case connect_status::timeout: SYM_ASSERT(progress && due && now >= due && !gets, "a timeout that has not passed"); break;
            case connect_status::error:
                SYM_ASSERT(!up, "an error although the kernel established the connection");
                SYM_ASSERT(!progress || gets || (seen & (EPOLLERR | EPOLLHUP | EPOLLRDHUP)), "an error nobody reported");
                break;
            default: sym_fail_msg("a status that cannot occur");
        }
        sym_reach(2 + (uint64_t)st);
    }
}
#else
static int  pending, got, lasterr, accepts;
static bool stopped;
extern "C" int symrt_accept(int f, sockaddr* a, socklen_t* n)
{
    SYM_ASSERT(f == fd, "another descriptor is used");
    SYM_ASSERT(began != done, "a connection is accepted for nobody");
    SYM_ASSERT(a && n && *n >= sizeof(sockaddr_in6), "the address does not fit");
    SYM_ASSERT(accepts == 0 || lasterr == EAGAIN, "more than one connection is accepted");
    auto e   = (int)sym::range(0, 133, 8);
    auto por = sym_input(16);
    auto adr = sym_input(32);
    accepts++;
    if (settle) e = 0;
    if (!pending && !stopped) { errno = lasterr = EAGAIN; return -1; }
    if (stopped && e == 0) e = EINVAL; // the listening socket has been shut down
    if (e != 0) { errno = lasterr = e; return -1; }
    pending--;
    if (!pending) env::get(fd)->ready &= ~(unsigned)EPOLLIN;
    sockaddr_in s{};
    s.sin_family      = AF_INET;
    s.sin_port        = (in_port_t)por;
    s.sin_addr.s_addr = (in_addr_t)adr;
    std::memcpy(a, &s, sizeof s);
    *n      = sizeof s;
    lasterr = 0;
    got     = env::user_fd();
    return got;
}
extern "C" int symrt_accept4(int f, sockaddr* a, socklen_t* n, int flags)
{
    int r = symrt_accept(f, a, n);
    if (r >= 0 && (flags & SOCK_NONBLOCK)) env::get(r)->flags |= O_NONBLOCK;
    return r;
}
static hx::detached user(milliseconds to)
{
    using k = io_status::kind;
    for (int r = 0; r < ROUNDS; r++)
    {
        due     = to.count() > 0 ? coro::clock::now().time_since_epoch().count() + to.count() * 1000000 : 0;
        seen    = env::get(fd)->ready;
        accepts = lasterr = 0;
        got     = -1;
        began++;
        {
            auto c = co_await Sv->accept(to);
            done++;
            SYM_ASSERT(done == began, "accept() finishes twice");
            auto now = coro::clock::now().time_since_epoch().count();
            if (c)
            {
                sym_reach(2);
                SYM_ASSERT(got >= 0 && c->socket().native_handle() == got, "the client does not own the accepted descriptor");
                SYM_ASSERT(env::get(got) && (env::get(got)->flags & O_NONBLOCK), "the accepted descriptor blocks");
            }
            else
            {
                auto st = c.error();
                SYM_ASSERT(got < 0, "an accepted connection is not handed over");
                switch (st.type)
                {
                    case k::timeout: SYM_ASSERT(due && now >= due, "a timeout that has not passed"); sym_reach(3); break;
                    case k::cancelled: SYM_ASSERT(stopped, "cancelled although nobody shut the server down"); sym_reach(4); break;
                    case k::closed: SYM_ASSERT(seen & (EPOLLHUP | EPOLLRDHUP), "closed is reported although nothing was closed"); break;
                    case k::polling_error: SYM_ASSERT(seen & EPOLLERR, "an error nobody reported"); break;
                    default:
                        SYM_ASSERT(lasterr && native_ok(st, lasterr), "the error is not the kernel's");
                        if (lasterr == EAGAIN) SYM_ASSERT(seen & EPOLLIN, "what ended the wait is masked by an attempt that cannot succeed");
                }
                if (lasterr && lasterr != EAGAIN) SYM_ASSERT(native_ok(st, lasterr), "an error is not reported");
            }
        }
        if (got >= 0) SYM_ASSERT(!env::is_open(got), "the accepted descriptor is leaked");
    }
}
#endif
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        auto s = coro::scheduler::make_unique(coro::scheduler::options{
            .thread_strategy = coro::scheduler::thread_strategy_t::manual, .execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline});
        S              = s.get();
        env::K.shuffle = 1;
        int entries0   = env::entries();
        coro::net::socket_address a{V6 ? "::1" : "127.0.0.1", 8080, V6 ? coro::net::domain_t::ipv6 : coro::net::domain_t::ipv4};
#if MODE == 0
        coro::net::tcp::client c{s, a};
        Cl = &c;
#ifdef MOVED
        U = &s;
#endif
        fd = c.socket().native_handle();
        static constexpr unsigned masks[] = {0, EPOLLOUT, EPOLLERR, EPOLLHUP, EPOLLOUT | EPOLLERR | EPOLLHUP, EPOLLRDHUP};
#else
        coro::net::tcp::server c{s, a};
        Sv = &c;
        fd = c.accept_socket().native_handle();
        SYM_ASSERT(env::get(fd)->listening, "the server does not listen");
        static constexpr unsigned masks[] = {0, EPOLLIN, EPOLLERR, EPOLLHUP, EPOLLRDHUP};
#endif
        long long ms = (long long)sym_input(2);
        user(milliseconds{ms});
        for (int n = 0; n < STEPS; n++)
        {
            sym_yield();
            auto mk  = sym_concretize(sym::range(0, sizeof(masks) / sizeof(*masks) - 1, 3));
            auto adv = sym_input(3);
#if MODE == 1
            auto stop = sym::flip();
            if (stop && !stopped) { stopped = true; seen |= EPOLLIN | EPOLLHUP | EPOLLRDHUP; c.shutdown(); }
            if (mk == 1) pending++;
            if (!stopped) ready(masks[mk] | (pending ? EPOLLIN : 0u));
#else
            ready(masks[mk]);
#endif
            sym_clock_ns += (long long)adv * 500000;
            s->process_events(milliseconds{0});
            auto now = coro::clock::now().time_since_epoch().count();
            if (began != done) SYM_ASSERT(!due || now < due + 1000000, "the operation goes on after its timeout");
#if MODE == 1
            s->process_events(milliseconds{0});
            SYM_ASSERT(!stopped || began == done, "accept() goes on after a shutdown");
#endif
        }
        settle = true;
        for (int n = 0; n < 2 * ROUNDS && began != done; n++)
        {
            sym_yield();
            ready(0);
#if MODE == 1
            pending++;
#endif
            ready(EPOLLIN | EPOLLOUT);
            s->process_events(milliseconds{0});
        }
        SYM_ASSERT(done == ROUNDS, "an operation never finishes");
        SYM_ASSERT(env::entries() == entries0, "a registration is left in the epoll set");
        SYM_ASSERT(s->empty(), "size() is not zero");
#if MODE == 0 && defined(MOVED)
        Made.reset();
#endif
    }
    SYM_ASSERT(env::open_fds() == 0, "a descriptor is leaked");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
