// udp::peer: whole datagrams, the kernel's outcome, the sender's address.
#include "hx.hpp"
#include "env.hpp"
#include <cerrno>
#include <coro/net/udp/peer.hpp>
#include <optional>
#include <cstring>
#include <netinet/in.h>
#include <sys/socket.h>
#ifndef MODE // 0 read_from, 1 write_to
#define MODE 0
#endif
#ifndef BYTES
#define BYTES 4
#endif
#ifndef STEPS
#define STEPS 2
#endif
#ifndef ROUNDS
#define ROUNDS 2
#endif
#ifndef BOUND
#define BOUND 1
#endif
#ifndef V6
#define V6 0
#endif
using namespace std::chrono;
using coro::net::io_status;
static coro::scheduler*      S;
static coro::net::udp::peer* P;
static unsigned char         buf[BYTES], stream[BYTES];
static int                   fd, done, began, calls, ok, lasterr, got;
static unsigned              seen;
static long long             due;
static bool                  settle;
static uint8_t               ip[16];
static uint16_t              port;
static void ready(unsigned m)
{
    seen |= m;
    env::set_ready(fd, m);
}
static bool native_ok(io_status s, int e)
{
    using k = io_status::kind;
    k x     = e == ECONNREFUSED ? k::connection_refused : e == ECONNRESET ? k::connection_reset : e == EAGAIN ? k::would_block_or_try_again : e == EMSGSIZE ? k::message_too_big : k::native;
    return (s.type == x) & (s.native_code == e);
}
extern "C" ssize_t symrt_recvfrom(int f, void* b, size_t n, int flags, sockaddr* a, socklen_t* len)
{
    SYM_ASSERT(MODE == 0 && BOUND && f == fd && !(flags & ~(MSG_DONTWAIT | MSG_NOSIGNAL)), "a datagram is received for nobody");
    SYM_ASSERT(began != done && !ok && (!calls || lasterr == EAGAIN), "more than one datagram is received");
    SYM_ASSERT(b == buf && n == BYTES, "a datagram is received outside the buffer");
    SYM_ASSERT(a && *len >= (V6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in)), "the address does not fit");
    auto e    = (int)sym::range(0, 133, 8);
    auto cnt  = sym_input(3);
    bool more = sym::flip();
    uint8_t  raw[16];
    for (auto& x : raw) x = (uint8_t)sym_input(8);
    auto por = (uint16_t)sym_input(16);
    for (auto& x : stream) x = (unsigned char)sym_input(8);
    calls++;
    if (settle) { e = 0; more = true; }
    auto* o = env::get(f);
    if (!(o->ready & EPOLLIN)) { errno = lasterr = EAGAIN; return -1; }
    if (!more) o->ready &= ~(unsigned)EPOLLIN;
    if (e) { errno = lasterr = e; return -1; }
    sym_assume(cnt <= n);
    int k = (int)sym_concretize(cnt); // an empty datagram is a datagram
    std::memcpy(b, stream, (size_t)k);
    std::memcpy(ip, raw, 16);
    port = por;
#if V6
    sockaddr_in6 s{};
    s.sin6_family = AF_INET6;
    s.sin6_port   = htons(por);
    std::memcpy(&s.sin6_addr, raw, 16);
#else
    sockaddr_in s{};
    s.sin_family = AF_INET;
    s.sin_port   = htons(por);
    std::memcpy(&s.sin_addr, raw, 4);
#endif
    std::memcpy(a, &s, sizeof s);
    *len    = sizeof s;
    got     = k;
    lasterr = 0;
    ok++;
    return k;
}
extern "C" ssize_t symrt_recvmsg(int f, msghdr* m, int flags)
{
    SYM_ASSERT(m->msg_iovlen == 1, "a datagram is received outside the buffer");
    return symrt_recvfrom(f, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, flags, (sockaddr*)m->msg_name, &m->msg_namelen);
}
extern "C" ssize_t symrt_sendto(int f, const void* b, size_t n, int, const sockaddr* a, socklen_t len)
{
    SYM_ASSERT(MODE == 1 && f == fd, "a datagram is sent for nobody");
    SYM_ASSERT(began != done && !ok && (!calls || lasterr == EAGAIN), "more than one datagram is sent");
    SYM_ASSERT(b == buf && n == BYTES, "a datagram is not sent whole");
#if V6
    auto* s = (const sockaddr_in6*)a;
    SYM_ASSERT(len == sizeof(*s) && s->sin6_family == AF_INET6 && s->sin6_port == htons(port), "a datagram is sent to another address");
    SYM_ASSERT(!std::memcmp(&s->sin6_addr, ip, 16), "a datagram is sent to another address");
#else
    auto* s = (const sockaddr_in*)a;
    SYM_ASSERT((len == sizeof(*s)) & (s->sin_family == AF_INET) & (s->sin_port == htons(port)), "a datagram is sent to another address");
    SYM_ASSERT(!std::memcmp(&s->sin_addr, ip, 4), "a datagram is sent to another address");
#endif
    auto e    = (int)sym::range(0, 133, 8);
    bool more = sym::flip();
    calls++;
    if (settle) { e = 0; more = true; }
    auto* o = env::get(f);
    if (!(o->ready & EPOLLOUT)) { errno = lasterr = EAGAIN; return -1; }
    if (!more) o->ready &= ~(unsigned)EPOLLOUT;
    if (e) { errno = lasterr = e; return -1; }
    lasterr = 0;
    ok++;
    return (ssize_t)n;
}
extern "C" ssize_t symrt_sendmsg(int f, const msghdr* m, int flags)
{
    SYM_ASSERT(m->msg_iovlen == 1, "a datagram is not sent whole");
    return symrt_sendto(f, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, flags, (const sockaddr*)m->msg_name, m->msg_namelen);
}
static hx::detached user(milliseconds to)
{
    using k = io_status::kind;
    for (int r = 0; r < ROUNDS; r++)
    {
        due  = to.count() > 0 ? coro::clock::now().time_since_epoch().count() + to.count() * 1000000 : 0;
        seen = env::get(fd)->ready;
        ok = calls = lasterr = 0;
        began++;
        std::span<unsigned char> b{buf};
#if MODE == 0
        auto [st, from, sp] = co_await P->read_from(b, to);
#else
        coro::net::socket_address to_addr{coro::net::ip_address{std::span<const uint8_t>{ip, V6 ? 16u : 4u}, V6 ? coro::net::domain_t::ipv6 : coro::net::domain_t::ipv4}, port};
        auto st = co_await P->write_to(to_addr, b, to);
#endif
        done++;
        SYM_ASSERT(done == began, "an operation finishes twice");
        auto now = coro::clock::now().time_since_epoch().count();
        switch (st.type)
        {
            case k::ok: SYM_ASSERT(ok == 1, "success without a datagram"); break;
            case k::udp_not_bound: SYM_ASSERT(!BOUND && MODE == 0 && !calls, "not bound"); break;
            case k::closed: SYM_ASSERT(seen & (EPOLLHUP | EPOLLRDHUP), "closed is reported although nothing was closed"); break;
            case k::timeout: SYM_ASSERT(due && now >= due, "a timeout that has not passed"); break;
            case k::polling_error: SYM_ASSERT(seen & EPOLLERR, "an error nobody reported"); break;
            default:
                SYM_ASSERT(calls && lasterr && native_ok(st, lasterr), "the error is not the kernel's");
                if (lasterr == EAGAIN) SYM_ASSERT(seen & (MODE == 0 ? EPOLLIN : EPOLLOUT), "what ended the wait is masked by an attempt that cannot succeed");
        }
        if (calls && lasterr && lasterr != EAGAIN) SYM_ASSERT(native_ok(st, lasterr), "an error is not reported");
        SYM_ASSERT((st.type == k::ok) == (ok == 1), "a datagram is lost");
#if MODE == 0
        if (ok)
        {
            SYM_ASSERT(sp.size() == (size_t)got && (!got || (void*)sp.data() == buf), "the bytes reported are not the datagram");
            for (int i = 0; i < got; i++) SYM_ASSERT(buf[i] == stream[i], "a byte of the datagram is changed");
            SYM_ASSERT(from.port() == port, "another port is reported");
            auto fa = from.ip();
            SYM_ASSERT(fa.domain() == (V6 ? coro::net::domain_t::ipv6 : coro::net::domain_t::ipv4), "another family is reported");
            SYM_ASSERT(!std::memcmp(fa.data().data(), ip, V6 ? 16 : 4), "another sender is reported");
        }
        else
            SYM_ASSERT(sp.empty(), "bytes are reported without a datagram");
#endif
        sym_reach(2 + (uint64_t)st.type);
    }
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        auto s = coro::scheduler::make_unique(coro::scheduler::options{
            .thread_strategy = coro::scheduler::thread_strategy_t::manual, .execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline});
        S            = s.get();
        int entries0 = env::entries();
        constexpr auto dom = V6 ? coro::net::domain_t::ipv6 : coro::net::domain_t::ipv4;
#if BOUND
        coro::net::udp::peer p0{s, coro::net::socket_address{V6 ? "::1" : "127.0.0.1", 8080, dom}};
#else
        coro::net::udp::peer p0{s, dom};
#endif
#ifdef MOVED
        // the object in use is the original, or one that was moved or copied from it
        std::optional<coro::net::udp::peer> made;
        auto how = sym_concretize(sym::range(0, 4, 3));
        if (how == 1) made.emplace(std::move(p0));
        else if (how == 2) { made.emplace(s, dom); *made = std::move(p0); }
        else if (how == 3) made.emplace(p0);
        else if (how == 4) { made.emplace(s, dom); *made = p0; }
        if (made) { sym_reach(30); }
        auto& p = made ? *made : p0;
#else
        auto& p = p0;
#endif
        P  = &p;
        fd = p.socket().native_handle();
#if MODE == 1
        for (auto& x : ip) x = (uint8_t)sym_input(8);
        port = (uint16_t)sym_input(16);
        for (int i = 0; i < BYTES; i++) buf[i] = (unsigned char)(i + 1);
#endif
        static constexpr unsigned masks[] = {0, EPOLLIN | EPOLLOUT, EPOLLERR, EPOLLHUP, EPOLLIN | EPOLLOUT | EPOLLERR};
        if (sym::flip()) ready(EPOLLOUT);
        long long ms = (long long)sym_input(2);
        user(milliseconds{ms});
        for (int n = 0; n < STEPS; n++)
        {
            sym_yield();
            auto mk  = sym_concretize(sym::range(0, 4, 3));
            auto adv = sym_input(3);
            ready(masks[mk]);
            sym_clock_ns += (long long)adv * 500000;
            s->process_events(milliseconds{0});
            auto now = coro::clock::now().time_since_epoch().count();
            if (began != done) SYM_ASSERT(!due || now < due + 1000000, "the operation goes on after its timeout");
        }
        settle = true;
        for (int n = 0; n < 2 * ROUNDS && began != done; n++)
        {
            sym_yield();
            ready(0);
            ready(EPOLLIN | EPOLLOUT);
            s->process_events(milliseconds{0});
        }
        SYM_ASSERT(done == ROUNDS, "an operation never finishes");
        SYM_ASSERT(env::entries() == entries0, "a registration is left in the epoll set");
        SYM_ASSERT(s->empty(), "size() is not zero");
    }
    SYM_ASSERT(env::open_fds() == 0, "a descriptor is leaked");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
