// net::socket and its factories: the system calls made are the ones the options, the address and the mode ask for.
#include "hx.hpp"
#include "env.hpp"
#include <coro/net/socket.hpp>
#include <coro/net/socket_address.hpp>
#include <cstring>
#include <fcntl.h>
#include <netinet/in.h>
#include <sys/socket.h>
using namespace coro::net;
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    bool udp = sym::flip(), v6 = sym::flip(), nb = sym::flip(), acc = sym::flip();
    acc = sym_concretize(acc);
    v6  = sym_concretize(v6);
    socket::options o{udp ? socket::type_t::udp : socket::type_t::tcp, nb ? socket::blocking_t::no : socket::blocking_t::yes};
    auto port    = (uint16_t)sym_input(16);
    auto backlog = (int)sym_input(16);
    uint8_t b[16];
    for (auto& x : b) x = (uint8_t)sym_input(8);
    env::K.fail_at = (int)sym_concretize(sym::range(0, 8, 4));
    bool thrown = false;
    try
    {
        auto dom = v6 ? domain_t::ipv6 : domain_t::ipv4;
        auto s   = acc ? make_accept_socket(o, socket_address{ip_address{std::span<const uint8_t>{b, v6 ? 16u : 4u}, dom}, port}, backlog) : make_socket(o, dom);
        SYM_ASSERT(env::K.failed == 0, "a failed system call is not reported");
        auto* d = env::get(s.native_handle());
        SYM_ASSERT(d, "no descriptor");
        SYM_ASSERT(d->domain == (v6 ? AF_INET6 : AF_INET) && d->type == (udp ? SOCK_DGRAM : SOCK_STREAM), "wrong kind of socket");
        SYM_ASSERT(((d->flags & O_NONBLOCK) != 0) == nb, "blocking mode is not the one asked for");
        if (acc)
        {
            if (v6)
            {
                sockaddr_in6 a;
                SYM_ASSERT(d->bound == (int)sizeof a, "bind() with another length");
                std::memcpy(&a, d->addr, sizeof a);
                bool same = a.sin6_family == AF_INET6 && a.sin6_port == htons(port);
                for (int i = 0; i < 16; i++) same &= a.sin6_addr.s6_addr[i] == b[i];
                SYM_ASSERT(same, "bound to another address");
            }
            else
            {
                sockaddr_in a;
                SYM_ASSERT(d->bound == (int)sizeof a, "bind() with another length");
                std::memcpy(&a, d->addr, sizeof a);
                bool same = a.sin_family == AF_INET && a.sin_port == htons(port);
                for (int i = 0; i < 4; i++) same &= ((unsigned char*)&a.sin_addr)[i] == b[i];
                SYM_ASSERT(same, "bound to another address");
            }
            SYM_ASSERT(d->listening == !udp, "listening is not what the type asks for");
            SYM_ASSERT(udp || d->backlog == backlog, "another backlog");
            SYM_ASSERT(d->reuse == 3, "the address and port are not marked for reuse");
        }
        else SYM_ASSERT(!d->bound && !d->listening, "a client socket is bound");
        // blocking(): only that flag changes, and the result tells whether it did
        env::K.fail_at = 0;
        const int other = (int)sym_input(1) ? O_ASYNC : 0;
        d->flags = (d->flags & O_NONBLOCK) | O_RDWR | other;
        for (int r = 0; r < 2; r++)
        {
            bool want = sym::flip();
            int  was  = d->flags, f0 = env::K.failed;
            static int calls;
            env::K.fail_at = (int)sym_concretize(sym::range(0, 2, 2));
            (void)calls;
            bool ok = s.blocking(want ? socket::blocking_t::no : socket::blocking_t::yes);
            bool bad = env::K.failed != f0;
            SYM_ASSERT(ok == !bad, "blocking() reports the wrong outcome");
            SYM_ASSERT(d->flags == (bad ? was : want ? was | O_NONBLOCK : was & ~O_NONBLOCK), "blocking() changes another flag");
            env::K.fail_at = 0;
        }
        auto how = sym_concretize(sym::range(0, 2, 2));
        auto op  = how == 0 ? coro::poll_op::read : how == 1 ? coro::poll_op::write : coro::poll_op::read_write;
        SYM_ASSERT(s.shutdown(op) && d->how == 1 + (how == 0 ? SHUT_RD : how == 1 ? SHUT_WR : SHUT_RDWR), "another direction is shut down");
        s.close();
        SYM_ASSERT(!s.shutdown(op) && !s.blocking(socket::blocking_t::no) && !s.is_ok() && s.native_handle() == -1, "an operation succeeds on a closed socket");
        s.close();
        sym_reach(1);
    }
    catch (const std::runtime_error&)
    {
        thrown = true;
        sym_reach(2);
        SYM_ASSERT(env::K.failed > 0, "an exception although no system call failed");
    }
    (void)thrown;
    SYM_ASSERT(env::open_fds() == 0, "a descriptor is leaked");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
}
