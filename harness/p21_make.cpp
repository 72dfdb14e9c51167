// A failed system call while an owner of descriptors is built leaves no descriptor open.
#include "hx.hpp"
#include "env.hpp"
#include <coro/detail/pipe.hpp>
#include <coro/net/socket.hpp>
#include <coro/poll.hpp>
using namespace coro::net;
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    uint64_t what  = sym_concretize(sym::range(0, 2, 2));
    env::K.fail_at = (int)sym_concretize(sym::range(0, 8, 4));
    bool udp = sym::flip(), v6 = sym::flip(), nb = sym::flip();
    socket::options o{udp ? socket::type_t::udp : socket::type_t::tcp, nb ? socket::blocking_t::no : socket::blocking_t::yes};
    bool thrown = false;
    try
    {
        if (what == 0)
        {
            auto s = make_socket(o, v6 ? domain_t::ipv6 : domain_t::ipv4);
            SYM_ASSERT(s.is_ok() && env::is_open(s.native_handle()), "no descriptor");
            auto* d = env::get(s.native_handle());
            SYM_ASSERT(d->domain == (v6 ? AF_INET6 : AF_INET) && d->type == (udp ? SOCK_DGRAM : SOCK_STREAM), "wrong kind of socket");
            SYM_ASSERT(((d->flags & O_NONBLOCK) != 0) == nb, "blocking mode is not the one asked for");
        }
        else if (what == 1)
        {
            uint8_t b[16] = {127, 0, 0, 1};
            socket_address a{ip_address{std::span<const uint8_t>{b, v6 ? 16u : 4u}, v6 ? domain_t::ipv6 : domain_t::ipv4}, 80};
            auto s = make_accept_socket(o, a, 5);
            auto* d = env::get(s.native_handle());
            SYM_ASSERT(d && d->bound && (udp || d->listening) && ((d->flags & O_NONBLOCK) != 0) == nb, "the socket is not ready to accept");
        }
        else
        {
            coro::poll_stop_source p;
            SYM_ASSERT(env::is_open(p.get_token().native_handle()), "no descriptor");
        }
    }
    catch (const std::runtime_error&)
    {
        thrown = true;
        sym_reach(2);
    }
    if (what != 2) SYM_ASSERT(thrown == (env::K.failed > 0), "a failed system call is not reported");
    SYM_ASSERT(env::open_fds() == 0, "a descriptor is leaked");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
