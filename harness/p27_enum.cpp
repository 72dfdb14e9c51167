// status mappings and names
#include "hx.hpp"
#include <coro/net/connect.hpp>
#include <coro/net/io_status.hpp>
#include <coro/net/ip_address.hpp>
#include <coro/net/tls/connection_status.hpp>
#include <coro/net/tls/recv_status.hpp>
#include <coro/net/tls/send_status.hpp>
#include <coro/poll.hpp>
#include <coro/ring_buffer.hpp>
#include <coro/queue.hpp>
#include <coro/semaphore.hpp>
using namespace coro;
using net::io_status;
using kind = io_status::kind;
#define NAMED(E, V) case (int)E::V: SYM_ASSERT(std::string(net_str(E::V)) == #V, "to_string() of " #E "::" #V " does not name it"); break;
template<typename T>
static std::string net_str(T v) { return std::string{to_string(v)}; }
extern "C" void sym_main()
{
    uint64_t g = sym::range(0, 8, 4);
    int      v = (int)sym_input(32);
    if (g == 0)
    {
        auto s = net::make_io_status_from_native(v);
        kind want = v == 0              ? kind::ok
                    : v == EOF          ? kind::closed
                    : v == ECONNREFUSED ? kind::connection_refused
                    : v == ECONNRESET   ? kind::connection_reset
                    : v == EAGAIN       ? kind::would_block_or_try_again
                    : v == EMSGSIZE     ? kind::message_too_big
                                        : kind::native;
        SYM_ASSERT(s.type == want, "errno is mapped to the wrong kind");
        SYM_ASSERT(s.native_code == v, "the native code is not kept");
        SYM_ASSERT(s.is_ok() == (v == 0), "is_ok() holds for an error, or not for success");
        SYM_ASSERT(s.is_native() == (want == kind::native), "is_native()");
        SYM_ASSERT(s.would_block() == (v == EAGAIN) && s.try_again() == (v == EAGAIN), "would_block()");
        SYM_ASSERT(s.is_closed() == (v == EOF), "is_closed()");
        SYM_ASSERT(!s.is_timeout(), "is_timeout()");
        sym_reach(2);
    }
    else if (g == 1)
    {
        sym_assume(v >= 0 && v <= (int)poll_status::cancelled);
        auto p = (poll_status)v;
        auto s = net::make_io_status_from_poll_status(p);
        kind want = p == poll_status::read || p == poll_status::write ? kind::ok
                    : p == poll_status::timeout                       ? kind::timeout
                    : p == poll_status::error                         ? kind::polling_error
                    : p == poll_status::closed                        ? kind::closed
                                                                      : kind::cancelled;
        SYM_ASSERT(s.type == want, "poll status is mapped to the wrong kind");
        SYM_ASSERT(s.is_ok() == (want == kind::ok) && s.is_timeout() == (want == kind::timeout), "is_ok() / is_timeout()");
        SYM_ASSERT(static_cast<bool>(s) == s.is_ok(), "operator bool");
        switch (v)
        {
            NAMED(poll_status, read) NAMED(poll_status, write) NAMED(poll_status, timeout) NAMED(poll_status, error) NAMED(poll_status, closed)
            NAMED(poll_status, cancelled)
        }
    }
    else if (g == 2)
    {
        sym_assume(v >= 0 && v < 3);
        poll_op op = v == 0 ? poll_op::read : v == 1 ? poll_op::write : poll_op::read_write;
        SYM_ASSERT(poll_op_readable(op) == (v != 1), "poll_op_readable");
        SYM_ASSERT(poll_op_writeable(op) == (v != 0), "poll_op_writeable");
        SYM_ASSERT(to_string(op) == (v == 0 ? "read" : v == 1 ? "write" : "read_write"), "to_string(poll_op) does not name it");
    }
    else if (g == 3) // every kind has a text of its own
    {
        int w = (int)sym_input(32);
        sym_assume(v >= 0 && v <= (int)kind::unknown);
        sym_assume(w >= 0 && w <= (int)kind::unknown);
        v = (int)sym_concretize(v);
        w = (int)sym_concretize(w);
        std::string a{net::to_string((kind)v)}, b{net::to_string((kind)w)};
        SYM_ASSERT((a == b) == (v == w), "two kinds of io_status have the same text");
        SYM_ASSERT((a == "unknown") == ((kind)v == kind::unknown), "a valid kind has no name");
        if ((kind)v != kind::native)
        {
            io_status s{(kind)v, 0};
            SYM_ASSERT(s.message() == a, "message() differs from to_string()");
        }
    }
    else if (g == 4)
    {
        using E = net::connect_status;
        sym_assume(v >= 0 && v <= (int)E::error);
        switch (v) { NAMED(E, connected) NAMED(E, invalid_ip_address) NAMED(E, timeout) NAMED(E, error) }
    }
    else if (g == 5)
    {
        using E = net::tls::connection_status;
        switch (v)
        {
            NAMED(E, connected) NAMED(E, not_connected) NAMED(E, context_required) NAMED(E, resource_allocation_failed) NAMED(E, set_fd_failure)
            NAMED(E, handshake_failed) NAMED(E, timeout) NAMED(E, poll_error) NAMED(E, unexpected_close) NAMED(E, invalid_ip_address) NAMED(E, error)
            default: break;
        }
    }
    else if (g == 6)
    {
        using E = net::tls::recv_status;
        switch (v)
        {
            NAMED(E, ok) NAMED(E, buffer_is_empty) NAMED(E, timeout) NAMED(E, closed) NAMED(E, error) NAMED(E, cancelled) NAMED(E, want_read)
            NAMED(E, want_write) NAMED(E, want_connect) NAMED(E, want_accept) NAMED(E, want_x509_lookup) NAMED(E, error_syscall)
            default: break;
        }
    }
    else if (g == 7)
    {
        using E = net::tls::send_status;
        switch (v)
        {
            NAMED(E, ok) NAMED(E, buffer_is_empty) NAMED(E, timeout) NAMED(E, closed) NAMED(E, error) NAMED(E, cancelled) NAMED(E, want_read)
            NAMED(E, want_write) NAMED(E, want_connect) NAMED(E, want_accept) NAMED(E, want_x509_lookup) NAMED(E, error_syscall)
            default: break;
        }
    }
    else
    {
        SYM_ASSERT(to_string(net::domain_t::ipv4) == "ipv4" && to_string(net::domain_t::ipv6) == "ipv6", "to_string(domain_t) does not name it");
        using E = semaphore_acquire_result;
        sym_assume(v >= 0 && v <= (int)E::shutdown);
        switch (v) { NAMED(E, acquired) NAMED(E, shutdown) }
    }
    sym_reach(1);
}
