// Owners of descriptors: each descriptor they own is closed exactly once, none that they do not own is closed, over every
// sequence of construction, copy, move, assignment, close and destruction of two objects.
#include "hx.hpp"
#include "env.hpp"
#include <coro/detail/pipe.hpp>
#include <coro/net/socket.hpp>
#include <coro/poll.hpp>
#include <optional>
#ifndef STEPS
#define STEPS 4
#endif
#if KIND == 0
using T = coro::detail::pipe_t;
static T    make() { return T{}; }
static int  fds(const T& x, int i) { return i == 0 ? x.read_fd() : x.write_fd(); }
static void shut(T& x) { x.close(); }
constexpr int NF = 2, COPY = 1;
#elif KIND == 1
using T = coro::net::socket;
static T    make() { return coro::net::make_socket({coro::net::socket::type_t::tcp, coro::net::socket::blocking_t::no}, coro::net::domain_t::ipv4); }
static int  fds(const T& x, int) { return x.native_handle(); }
static void shut(T& x) { x.close(); }
constexpr int NF = 1, COPY = 1;
#elif KIND == 3
#include <coro/net/tcp/client.hpp>
using T = coro::net::tcp::client;
static std::unique_ptr<coro::scheduler> S;
static T    make() { return T{S, coro::net::socket_address{"127.0.0.1", 80}}; }
static int  fds(const T& x, int) { return x.socket().native_handle(); }
static void shut(T& x) { x.socket().close(); }
constexpr int NF = 1, COPY = 1;
#elif KIND == 4
#include <coro/net/udp/peer.hpp>
using T = coro::net::udp::peer;
static std::unique_ptr<coro::scheduler> S;
static T    make() { return sym::flip() ? T{S} : T{S, coro::net::socket_address{"127.0.0.1", 80}}; }
static int  fds(const T& x, int) { return x.socket().native_handle(); }
static void shut(T& x) { x.socket().close(); }
constexpr int NF = 1, COPY = 1;
#elif KIND == 5
#include <coro/net/tcp/server.hpp>
using T = coro::net::tcp::server;
static std::unique_ptr<coro::scheduler> S;
static T    make() { return T{S, coro::net::socket_address{"127.0.0.1", 80}}; }
static int  fds(const T& x, int) { return x.accept_socket().native_handle(); }
static void shut(T& x) { x.accept_socket().close(); }
constexpr int NF = 1, COPY = 0;
#else
using T = coro::poll_stop_source;
static T    make() { return T{}; }
static int  fds(const T& x, int) { return x.get_token().native_handle(); }
static void shut(T&) {}
constexpr int NF = 1, COPY = 0;
#endif
static std::optional<T> X[2];
static int              has[2]; // descriptors expected to be open in X[i]
static void check(int i)
{
    if (!X[i]) return;
    for (int k = 0; k < NF; k++)
    {
        int fd = fds(*X[i], k);
        if (has[i])
            SYM_ASSERT(fd > 2 && env::is_open(fd), "an object lost its descriptor");
        else
            SYM_ASSERT(fd == -1 || !env::is_open(fd), "an empty object holds a descriptor");
        for (int j = 0; j < NF; j++)
            if (X[1 - i] && has[i] && has[1 - i]) SYM_ASSERT(fd != fds(*X[1 - i], j), "two objects own the same descriptor");
    }
}
template<typename U>
static bool copy_to(std::optional<U>& x, U& y)
{
    if constexpr (std::is_copy_constructible_v<U>)
    {
        if (x) *x = y; else x.emplace(y);
        return true;
    }
    return false;
}
extern "C" void sym_main()
{
    constexpr int PER = KIND == 1 || KIND >= 3 ? 1 : 2;
#if KIND >= 3
    S = coro::scheduler::make_unique(coro::scheduler::options{
        .thread_strategy = coro::scheduler::thread_strategy_t::manual, .execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline});
#endif
    const int base = env::open_fds();
#if KIND != 4 && KIND != 5
    env::K.close_err = 1;
#endif
    for (int s = 0; s < STEPS; s++)
    {
        sym_yield();
        uint64_t op = sym::range(0, 7, 3);
        int      i  = (int)sym_concretize(sym::range(0, 1, 1));
        auto&    x = X[i];
        auto&    y = X[1 - i];
        if (op == 0) { if (!x) { x.emplace(make()); has[i] = 1; } }
        else if (op == 1) { if (x) { x.reset(); has[i] = 0; } }
        else if (op == 2) { if (x) { shut(*x); if (KIND != 2) has[i] = 0; } }
        else if (op == 3) { if (!x && y) { x.emplace(std::move(*y)); has[i] = has[1 - i]; has[1 - i] = 0; } }
        else if (op == 4) { if (x && y) { *x = std::move(*y); has[i] = has[1 - i]; has[1 - i] = 0; sym_reach(2); } }
        else if (op == 5)
        {
            if (!x && y && copy_to(x, *y)) has[i] = has[1 - i];
        }
        else if (op == 6)
        {
            if (x && y && copy_to(x, *y)) has[i] = has[1 - i];
        }
        else if (x) // self assignment keeps it
        {
            auto* a = &*x;
            auto* b = &*x;
            if (COPY && sym::flip()) copy_to(x, *b);
            else *a = std::move(*b);
        }
        check(0);
        check(1);
        int want = 0;
        for (int k = 0; k < 2; k++) want += X[k] && has[k] ? PER : 0;
        if (KIND == 5) want += 2 * (X[0].has_value() + X[1].has_value()); // every server has a stop source
        SYM_ASSERT(env::open_fds() == base + want, "a descriptor is leaked or closed too early");
    }
    X[0].reset();
    X[1].reset();
    SYM_ASSERT(env::open_fds() == base, "a descriptor is never closed");
#if KIND >= 3
    S.reset();
    SYM_ASSERT(env::open_fds() == 0, "the scheduler does not close its descriptors");
#endif
    sym_reach(1);
}
