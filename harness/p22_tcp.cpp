// tcp::client read and write: what they report is what the kernel transferred.
#include "hx.hpp"
#include "env.hpp"
#include <cerrno>
#include <coro/net/tcp/client.hpp>
#include <sys/socket.h>
#include <array>
#include <optional>
#ifndef MODE // 0 read_some, 1 read_exact, 2 write_some, 3 write_all
#define MODE 1
#endif
#ifndef BYTES
#define BYTES 3
#endif
#ifndef STEPS
#define STEPS 3
#endif
#ifndef ROUNDS
#define ROUNDS 1
#endif
#ifndef ELEM
#define ELEM char
#endif
#ifndef EVENTS
#define EVENTS 7
#endif
using namespace std::chrono;
using coro::net::io_status;
static coro::scheduler*        S;
static coro::net::tcp::client* Cl;
static ELEM                    buf[BYTES / sizeof(ELEM)];
static unsigned char           stream[BYTES + 1];
static int                     moved, transfers, lastop, lasterr, done, began, fd, calls;
static bool                    settle;
static unsigned                seen;
static long long               t0, due;
enum { NONE, OK, CLOSED, ERR };
static constexpr bool READ = MODE < 2, WHOLE = MODE & 1;
static ssize_t transfer(int f, unsigned char* p, size_t n, bool rd)
{
    SYM_ASSERT(f == fd, "another descriptor is used");
    SYM_ASSERT(began != done, "a transfer after the operation has finished");
    SYM_ASSERT(lastop == NONE || lastop == OK || (lastop == ERR && lasterr == EAGAIN), "a transfer after an error");
    SYM_ASSERT(WHOLE || transfers == 0, "more than one transfer");
    SYM_ASSERT(n > 0 && p == (unsigned char*)buf + moved && n == BYTES - (size_t)moved, "a byte is transferred twice, out of place or outside the buffer");
    auto*    o   = env::get(f);
    unsigned bit = rd ? EPOLLIN : EPOLLOUT;
    // every call draws the same inputs
    auto what = sym_concretize(sym::range(0, 2, 2));
    auto cnt  = sym_input(3);
    auto err  = (int)sym::range(1, 133, 8);
    bool more = sym::flip();
    if (settle) { what = 0; cnt = n; more = true; }
    if (!(o->ready & bit)) { lastop = ERR; errno = lasterr = EAGAIN; return -1; }
    if (!more) o->ready &= ~bit;
    if (what == 0)
    {
        sym_assume((cnt >= 1) & (cnt <= n));
        int k = (int)sym_concretize(cnt);
        for (int i = 0; i < k; i++)
        {
            if (rd)
            {
                stream[moved + i] = (unsigned char)sym_input(8);
                p[i]              = stream[moved + i];
            }
            else
                SYM_ASSERT(p[i] == stream[moved + i], "another byte is sent");
        }
        moved += k;
        transfers++;
        lastop = OK;
        return k;
    }
    if (what == 1 && rd) { lastop = CLOSED; return 0; }
    lastop = ERR;
    errno = lasterr = err;
    return -1;
}
extern "C" ssize_t symrt_recv(int f, void* b, size_t n, int flags)
{
    SYM_ASSERT(READ && !(flags & ~(MSG_DONTWAIT | MSG_NOSIGNAL)), "recv");
    return transfer(f, (unsigned char*)b, n, true);
}
extern "C" ssize_t symrt_send(int f, const void* b, size_t n, int)
{
    SYM_ASSERT(!READ, "send");
    return transfer(f, (unsigned char*)const_cast<void*>(b), n, false);
}
extern "C" ssize_t symrt_recvfrom(int f, void* b, size_t n, int flags, sockaddr* a, socklen_t*)
{
    SYM_ASSERT(!a, "recvfrom");
    return symrt_recv(f, b, n, flags);
}
extern "C" ssize_t symrt_sendto(int f, const void* b, size_t n, int flags, const sockaddr* a, socklen_t)
{
    SYM_ASSERT(!a, "sendto");
    return symrt_send(f, b, n, flags);
}
extern "C" ssize_t symrt_recvmsg(int f, msghdr* m, int flags)
{
    SYM_ASSERT(m->msg_iovlen == 1, "recvmsg");
    return symrt_recv(f, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, flags);
}
extern "C" ssize_t symrt_sendmsg(int f, const msghdr* m, int flags)
{
    SYM_ASSERT(m->msg_iovlen == 1, "sendmsg");
    return symrt_send(f, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, flags);
}
static bool native_ok(io_status s)
{
    using k = io_status::kind;
    k e     = lasterr == ECONNREFUSED ? k::connection_refused : lasterr == ECONNRESET ? k::connection_reset : lasterr == EAGAIN ? k::would_block_or_try_again : lasterr == EMSGSIZE ? k::message_too_big : k::native;
    return (s.type == e) & (s.native_code == lasterr);
}
static hx::detached user(milliseconds to)
{
    using k = io_status::kind;
    for (int r = 0; r < ROUNDS; r++)
    {
        t0    = coro::clock::now().time_since_epoch().count();
        due   = to.count() > 0 ? t0 + to.count() * 1000000 : 0;
        seen  = env::get(fd)->ready;
        moved = transfers = 0;
        lastop  = NONE;
        began++;
        io_status st{};
        size_t    size;
        const void* data;
        std::span<ELEM> b{buf};
#if MODE == 0
        auto [s, sp] = co_await Cl->read_some(b, to);
#elif MODE == 1
        auto [s, sp] = co_await Cl->read_exact(b, to);
#elif MODE == 2
        auto [s, sp] = co_await Cl->write_some(b, to);
#else
        auto [s, sp] = co_await Cl->write_all(b, to);
#endif
        st   = s;
        size = sp.size_bytes();
        data = sp.data();
        done++;
        SYM_ASSERT(done == began, "an operation finishes twice");
        auto now = coro::clock::now().time_since_epoch().count();
        switch (st.type)
        {
            case k::ok:
                SYM_ASSERT(lastop == OK, "success although the lastop transfer failed");
                if (WHOLE) SYM_ASSERT(moved == BYTES, "success although not every byte was transferred");
                else SYM_ASSERT(transfers == 1, "success without a transfer");
                break;
            case k::closed: SYM_ASSERT(lastop == CLOSED || (seen & (EPOLLHUP | EPOLLRDHUP)), "closed is reported although nothing was closed"); break;
            case k::timeout: SYM_ASSERT(due && now >= due, "a timeout that has not passed"); break;
            case k::polling_error: SYM_ASSERT(seen & EPOLLERR, "an error nobody reported"); break;
            case k::native: case k::connection_refused: case k::connection_reset: case k::would_block_or_try_again: case k::message_too_big:
                SYM_ASSERT(lastop == ERR && native_ok(st), "the error is not the kernel's");
                if (lasterr == EAGAIN) SYM_ASSERT(seen & (READ ? EPOLLIN : EPOLLOUT), "what ended the wait is masked by an attempt that cannot succeed");
                break;
            default: sym_fail_msg("a status that cannot occur");
        }
        if (lastop == CLOSED) SYM_ASSERT(st.type == k::closed, "a close is not reported");
        if (lastop == ERR && lasterr != EAGAIN) SYM_ASSERT(native_ok(st), "an error is not reported");
        if (READ)
        {
            SYM_ASSERT(size == moved / sizeof(ELEM) * sizeof(ELEM), "the number of bytes reported is not the number transferred");
            SYM_ASSERT(!moved || data == buf, "the bytes reported are not at the start of the buffer");
            for (int i = 0; i < moved; i++) SYM_ASSERT(((unsigned char*)buf)[i] == stream[i], "a byte of the buffer is not the byte received");
        }
        else
        {
            SYM_ASSERT(size == (size_t)(BYTES - moved), "the unsent part is not what was not transferred");
            SYM_ASSERT(!size || data == (char*)buf + moved, "the unsent part is not the rest of the buffer");
        }
        sym_reach(2 + (uint64_t)st.type);
    }
}
static void ready(unsigned m)
{
    seen |= m;
    env::set_ready(fd, m);
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        auto s = coro::scheduler::make_unique(coro::scheduler::options{
            .thread_strategy = coro::scheduler::thread_strategy_t::manual, .execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline});
        S            = s.get();
        int entries0 = env::entries();
        coro::net::tcp::client c{s, coro::net::socket_address{"127.0.0.1", 80}};
        Cl = &c;
        fd = c.socket().native_handle();
        if (!READ)
            for (int i = 0; i < BYTES; i++) ((unsigned char*)buf)[i] = stream[i] = (unsigned char)(i * 37 + 11);
        static constexpr unsigned masks[] = {0, EPOLLIN | EPOLLOUT, EPOLLERR, EPOLLHUP, EPOLLIN | EPOLLRDHUP, EPOLLOUT | EPOLLERR | EPOLLHUP, EPOLLRDHUP};
#ifdef PRE
        ready(EPOLLIN | EPOLLOUT);
#endif
        long long ms = (long long)sym_input(2);
        user(milliseconds{ms});
        for (int n = 0; n < STEPS; n++)
        {
            sym_yield();
            auto mk  = sym_concretize(sym::range(0, EVENTS - 1, 3));
            auto adv = sym_input(3);
            ready(masks[mk]);
            sym_clock_ns += (long long)adv * 500000;
            s->process_events(milliseconds{0});
            auto now = coro::clock::now().time_since_epoch().count();
            if (began != done) SYM_ASSERT(!due || now < due + 1000000, "the operation goes on after its timeout");
        }
        settle = true;
        for (int n = 0; n < 2 * ROUNDS && began != done; n++)
        {
            sym_yield();
            ready(0);
            ready(EPOLLIN | EPOLLOUT);
            s->process_events(milliseconds{0});
        }
        SYM_ASSERT(done == ROUNDS, "an operation never finishes");
        SYM_ASSERT(env::entries() == entries0, "a registration is left in the epoll set");
        SYM_ASSERT(s->empty(), "size() is not zero");
    }
    SYM_ASSERT(env::open_fds() == 0, "a descriptor is leaked");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
