// tls::client: connect, recv and send against an OpenSSL that answers anything it may answer; tls::server::accept.
#include "hx.hpp"
#include "env.hpp"
#include <cerrno>
#include <coro/net/tls/client.hpp>
#include <coro/net/tls/server.hpp>
#include <cstring>
#include <netinet/in.h>
#include <optional>
#include <sys/socket.h>
#ifndef MODE // 0 connect, 1 accept, 2 recv, 3 send, 4 shutdown
#define MODE 0
#endif
#ifndef BYTES
#define BYTES 2
#endif
#ifndef STEPS
#define STEPS 3
#endif
#ifndef ROUNDS
#define ROUNDS 1
#endif
#ifndef EVENTS
#define EVENTS 6
#endif
#ifndef WHATS
#define WHATS 6
#endif
using namespace std::chrono;
namespace tls = coro::net::tls;
static constexpr int SSL_OBJ = 24;
static coro::scheduler* S;
static tls::client*     Cl;
static tls::server*     Sv;
static int              fd = -1, done, began, calls, lasterr, lastret, ctxs, ssls, ssl_fd = -1, state, lastwant, sslpending, moved;
static bool             settle, plain = true, errq, busy;
static unsigned         seen;
static long long        due;
static char             buf[BYTES];
static unsigned char    stream[BYTES];
static const void*      lastbuf;
static size_t           lastlen;
static void ready(unsigned m)
{
    seen |= m;
    if (fd >= 0 && env::get(fd)) env::set_ready(fd, m);
}
extern "C"
{
int             symrt_OPENSSL_init_ssl(uint64_t, const void*) { return 1; }
const SSL_METHOD* symrt_TLS_method() { return (const SSL_METHOD*)&ctxs; }
SSL_CTX*        symrt_SSL_CTX_new(const SSL_METHOD*) { ctxs++; return (SSL_CTX*)::operator new(SSL_OBJ); }
void            symrt_SSL_CTX_free(SSL_CTX* c) { ctxs--; ::operator delete((void*)c); }
uint64_t        symrt_SSL_CTX_set_options(SSL_CTX*, uint64_t) { return 0; }
void            symrt_SSL_CTX_set_verify(SSL_CTX*, int, SSL_verify_cb) {}
long            symrt_SSL_CTX_ctrl(SSL_CTX*, int, long, void*) { return 1; }
int             symrt_SSL_CTX_use_certificate_file(SSL_CTX*, const char*, int) { return 1; }
int             symrt_SSL_CTX_use_PrivateKey_file(SSL_CTX*, const char*, int) { return 1; }
int             symrt_SSL_CTX_check_private_key(const SSL_CTX*) { return 1; }
void            symrt_ERR_clear_error() { errq = false; }
static bool     nossl, nofd;
SSL*            symrt_SSL_new(SSL_CTX*)
{
    SYM_ASSERT(ctxs == 1, "the context is gone");
    if (nossl) return nullptr;
    ssls++;
    return (SSL*)::operator new(SSL_OBJ);
}
void symrt_SSL_free(SSL* s) { if (s) { ssls--; ::operator delete((void*)s); } }
int  symrt_SSL_set_fd(SSL*, int f)
{
    if (nofd) { errq = true; return 0; }
    ssl_fd = f;
    return 1;
}
void symrt_SSL_set_connect_state(SSL*) { state = 1; }
void symrt_SSL_set_accept_state(SSL*) { state = 2; }
int  symrt_SSL_pending(const SSL*) { return sslpending; }
int  symrt_SSL_has_pending(const SSL*) { return sslpending > 0; }
int  symrt_SSL_get_error(const SSL*, int r)
{
    SYM_ASSERT(r == lastret, "the error of another call is asked for");
    if (r > 0) return SSL_ERROR_NONE;
    return errq ? SSL_ERROR_SSL : lasterr; // an entry in the queue, whoever left it there, makes it a fatal error
}
static int answer(int what, int other)
{
    static constexpr int errs[] = {SSL_ERROR_NONE, SSL_ERROR_WANT_READ, SSL_ERROR_WANT_WRITE, SSL_ERROR_ZERO_RETURN, SSL_ERROR_SYSCALL, SSL_ERROR_SSL};
    lasterr  = errs[what];
    lastwant = what == 1 ? EPOLLIN : what == 2 ? EPOLLOUT : 0;
    if (what == 1 || what == 2) env::get(fd)->ready &= ~(unsigned)lastwant;
    if (what == 5) errq = true;
    lastret = what == 0 ? 1 : what == 3 ? 0 : other;
    return lastret;
}
static int step()
{
    SYM_ASSERT(ssl_fd == fd, "OpenSSL works on another descriptor");
    auto what = (int)sym_concretize(sym::range(0, WHATS - 1, 3));
    if (plain) return 0;
    SYM_ASSERT(began != done, "OpenSSL is called for nobody");
    SYM_ASSERT(calls == 0 || lasterr == SSL_ERROR_WANT_READ || lasterr == SSL_ERROR_WANT_WRITE, "OpenSSL is called again after a final answer");
    calls++;
    if (fd < 0) return 4; // there is no connection
    return settle ? 0 : what;
}
int symrt_SSL_shutdown(SSL*)
{
#if MODE == 4
    auto what = step();
    auto neg  = sym::flip();
    answer(what, -1);
    if (what == 1 || what == 2) lastret = neg ? -1 : 0; // the peer's notification is outstanding, or the call failed
    return lastret;
#endif
    lastret = 1;
    return 1;
}
int symrt_SSL_connect(SSL*)
{
    auto what = step();
    SYM_ASSERT(state == (MODE == 1 ? 2 : 1), "the wrong side of the handshake");
    return answer(what, -1);
}
int symrt_SSL_do_handshake(SSL* s) { return symrt_SSL_connect(s); }
int symrt_SSL_accept(SSL* s) { return symrt_SSL_connect(s); }
int symrt_SSL_read_ex(SSL*, void* p, size_t n, size_t* got)
{
    auto what = step();
    auto cnt  = sym_input(3);
    SYM_ASSERT(MODE == 2 && p == buf && n == BYTES, "bytes are received outside the buffer");
    if (sslpending) what = 0;
    if (what) return answer(what, 0);
    if (settle) cnt = n;
    if (sslpending && (int)cnt > sslpending) cnt = (uint64_t)sslpending;
    sym_assume((cnt >= 1) & (cnt <= n));
    int k = (int)sym_concretize(cnt);
    for (int i = 0; i < k; i++) ((unsigned char*)p)[i] = stream[i] = (unsigned char)sym_input(8);
    *got  = (size_t)k;
    moved = k;
    return answer(0, 0);
}
int symrt_SSL_write_ex(SSL*, const void* p, size_t n, size_t* put)
{
    auto what = step();
    auto cnt  = sym_input(3);
    SYM_ASSERT(MODE == 3 && p == buf && n == BYTES, "other bytes are sent");
    for (int i = 0; i < BYTES; i++) SYM_ASSERT(((const unsigned char*)p)[i] == stream[i], "another byte is sent");
    if (what) return answer(what, 0);
    if (settle) cnt = n;
    sym_assume((cnt >= 1) & (cnt <= n));
    int k = (int)sym_concretize(cnt);
    *put  = (size_t)k;
    moved = k;
    return answer(0, 0);
}
static int  cerr, gets, soerr, connects;
static bool getfail;
int symrt_connect(int f, const sockaddr*, socklen_t)
{
    SYM_ASSERT(f == fd && ++connects == 1, "the connection is attempted again or elsewhere");
    if (plain) return 0;
    cerr = (int)sym::range(0, 133, 8);
    if (cerr == 0) return 0;
    errno = cerr;
    return -1;
}
int symrt_getsockopt(int, int, int, void* v, socklen_t*)
{
    gets++;
    getfail = sym::flip();
    soerr   = (int)sym::range(0, 133, 8);
    if (getfail) { errno = ENOBUFS; return -1; }
    *(int*)v = soerr;
    return 0;
}
int symrt_accept(int, sockaddr* a, socklen_t* n)
{
    auto bad = sym::flip();
    if (bad) { errno = EAGAIN; fd = -1; return -1; }
    sockaddr_in s{};
    s.sin_family = AF_INET;
    std::memcpy(a, &s, sizeof s);
    *n = sizeof s;
    return fd = env::user_fd();
}
}
static constexpr unsigned BAD = EPOLLERR | EPOLLHUP | EPOLLRDHUP;
#if MODE < 2
using tls::connection_status;
static void verdict(connection_status st)
{
    auto now = coro::clock::now().time_since_epoch().count();
    bool up  = calls && lasterr == SSL_ERROR_NONE;
    if (up) SYM_ASSERT(st == connection_status::connected, "a handshake that succeeded is not reported");
    switch (st)
    {
        case connection_status::connected: SYM_ASSERT(up, "connected although the handshake has not succeeded"); break;
        case connection_status::timeout: SYM_ASSERT(due && now >= due, "a timeout that has not passed"); break;
        case connection_status::handshake_failed: SYM_ASSERT(calls && lasterr >= SSL_ERROR_SSL && !lastwant, "OpenSSL has not reported a failure"); break;
        case connection_status::resource_allocation_failed: SYM_ASSERT(nossl, "the connection object was allocated"); break;
        case connection_status::set_fd_failure: SYM_ASSERT(nofd, "the descriptor was accepted"); break;
        case connection_status::poll_error: SYM_ASSERT(calls && lastwant && (seen & EPOLLERR), "an error nobody reported"); break;
        case connection_status::unexpected_close: SYM_ASSERT(calls && lastwant && (seen & (EPOLLHUP | EPOLLRDHUP)), "closed is reported although nothing was closed"); break;
        case connection_status::error:
        {
            bool progress = cerr == EINPROGRESS || cerr == EAGAIN;
            SYM_ASSERT(MODE == 0 && !calls && cerr && (!progress || getfail || soerr || (seen & BAD)), "an error nobody reported");
            break;
        }
        default: sym_fail_msg("a status that cannot occur");
    }
    if (MODE == 0 && calls) SYM_ASSERT(cerr == 0 || ((cerr == EINPROGRESS || cerr == EAGAIN) && gets == 1 && !getfail && soerr == 0), "a handshake without a connection");
    sym_reach(2 + (uint64_t)st);
}
#endif
static hx::detached user(std::optional<milliseconds> to)
{
    for (int r = 0; r < ROUNDS; r++)
    {
        due   = to && to->count() > 0 ? coro::clock::now().time_since_epoch().count() + to->count() * 1000000 : 0;
        calls = lasterr = lastwant = moved = 0;
        if (fd >= 0) seen = env::get(fd)->ready;
        began++;
#if MODE == 0
        auto st = co_await Cl->connect(to.value_or(milliseconds{0}));
        done++;
        verdict(st);
        auto c0     = calls;
        auto again  = co_await Cl->connect();
        SYM_ASSERT(again == st && calls == c0, "a repeated connect() returns another status");
        if (st != connection_status::connected) { errq = false; }
        if (r == ROUNDS - 1)
        {
            sym_clock_ns += 0;
            tls::client m{std::move(*Cl)};
            SYM_ASSERT(m.socket().native_handle() == fd && env::is_open(fd), "the moved client has lost its descriptor");
            auto moved1 = co_await m.connect();
            SYM_ASSERT(moved1 == st && calls == c0, "a moved client connects again");
            *Cl = std::move(m);
            auto moved2 = co_await Cl->connect();
            SYM_ASSERT(moved2 == st && calls == c0, "a client that was assigned to connects again");
        }
#elif MODE == 1
        {
            auto c  = co_await Sv->accept(to.value_or(milliseconds{0}));
            done++;
            SYM_ASSERT(c.socket().native_handle() == fd, "the client does not own the accepted descriptor");
            verdict(co_await c.connect());
        }
        SYM_ASSERT(fd < 0 || !env::is_open(fd), "the accepted descriptor is leaked");
#elif MODE == 4
        co_await Cl->shutdown(to.value_or(milliseconds{0}));
        done++;
        auto c0 = calls;
        co_await Cl->shutdown();
        SYM_ASSERT(calls == c0, "the connection is shut down twice");
        SYM_ASSERT(calls >= 1, "the connection is not shut down");
        sym_reach(lasterr == SSL_ERROR_NONE ? 4 : lastwant ? 5 : 6);
        errq = false;
        plain = true;
        Cl    = nullptr;
#else
        using st = std::conditional_t<MODE == 2, tls::recv_status, tls::send_status>;
        std::span<char> b{buf};
#if MODE == 2
        auto [s, sp] = co_await Cl->recv(b, to);
#else
        auto [s, sp] = co_await Cl->send(b, to);
#endif
        done++;
        auto now  = coro::clock::now().time_since_epoch().count();
        bool final = calls && lasterr != SSL_ERROR_WANT_READ && lasterr != SSL_ERROR_WANT_WRITE;
        if (final) SYM_ASSERT((int64_t)s == lasterr, "the status is not OpenSSL's answer");
        else
            switch (s)
            {
                case st::timeout: SYM_ASSERT(due && now >= due, "a timeout that has not passed"); break;
                case st::closed: SYM_ASSERT(seen & (EPOLLHUP | EPOLLRDHUP), "closed is reported although nothing was closed"); break;
                case st::error: SYM_ASSERT(seen & EPOLLERR, "an error nobody reported"); break;
                default: sym_fail_msg("a status that cannot occur");
            }
        auto size = sp.size_bytes();
        if (MODE == 2)
        {
            SYM_ASSERT(size == (size_t)(s == st::ok ? moved : 0) && (!size || sp.data() == buf), "the bytes reported are not the bytes received");
            for (int i = 0; i < moved; i++) SYM_ASSERT((unsigned char)buf[i] == stream[i], "a byte of the buffer is not the byte received");
            sslpending -= sslpending ? moved : 0;
        }
        else
            SYM_ASSERT(size == (size_t)(BYTES - (s == st::ok ? moved : 0)) && (!size || sp.data() == buf + moved), "the unsent part is not what was not sent");
        sym_reach((uint64_t)(2 + 6 + (int64_t)s));
        errq = false;
#endif
    }
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        auto s = coro::scheduler::make_unique(coro::scheduler::options{
            .thread_strategy = coro::scheduler::thread_strategy_t::manual, .execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline});
        S            = s.get();
        int entries0 = env::entries();
        auto ctx     = std::make_shared<tls::context>(tls::verify_peer_t::no);
        static constexpr unsigned masks[] = {0, EPOLLIN | EPOLLOUT, EPOLLIN, EPOLLOUT, EPOLLERR, EPOLLIN | EPOLLRDHUP, EPOLLOUT | EPOLLERR | EPOLLHUP};
        long long ms = (long long)sym_input(2);
        std::optional<milliseconds> to{milliseconds{ms}};
#if MODE == 1
        tls::server server{s, ctx, coro::net::socket_address{"127.0.0.1", 8080}};
        Sv    = &server;
        plain = false;
#else
        tls::client c{s, ctx, coro::net::socket_address{"127.0.0.1", 8080}};
        Cl = &c;
        fd = c.socket().native_handle();
#endif
#if MODE < 2
        plain = false;
        nossl = sym::flip();
        nofd  = sym::flip();
#else
        for (int i = 0; i < BYTES; i++) buf[i] = (char)(stream[i] = (unsigned char)(i * 37 + 11));
        [](tls::client& c) -> hx::detached {
            auto st = co_await c.connect();
            SYM_ASSERT(st == tls::connection_status::connected, "the connection is not established");
        }(c);
        plain = false;
        auto opt = sym::flip();
        if (opt) to = std::nullopt;
#if MODE == 2
        sslpending = (int)sym_concretize(sym::range(0, BYTES, 2));
#endif
        errq = sym::flip(); // another connection of this thread may have failed meanwhile
#endif
        bool buffered = sslpending > 0;
        user(to);
        if (buffered) SYM_ASSERT(done >= 1, "recv() waits although decrypted bytes are there");
        for (int n = 0; n < STEPS; n++)
        {
            sym_yield();
            auto mk  = sym_concretize(sym::range(0, EVENTS - 1, 3));
            auto adv = sym_input(3);
            auto q   = sym::flip();
            if (q && !errq) errq = true; // another connection of this thread fails
            int  done0 = done;
            bool waits = began != done;
            auto want  = lastwant ? (unsigned)lastwant : MODE == 2 ? EPOLLIN : EPOLLOUT;
            auto c0 = calls, g0 = gets;
            ready(masks[mk]);
            sym_clock_ns += (long long)adv * 500000;
            s->process_events(milliseconds{0});
            if (waits && (masks[mk] & want)) SYM_ASSERT(calls != c0 || gets != g0 || began == done || done != done0, "the operation does not go on after the event it waits for");
            if (waits && (masks[mk] & BAD) && !(masks[mk] & (EPOLLIN | EPOLLOUT))) SYM_ASSERT(done != done0, "the operation goes on although the connection has failed");
            auto now = coro::clock::now().time_since_epoch().count();
            if (MODE < 4 && began != done) SYM_ASSERT(!due || now < due + 1000000, "the operation goes on after its timeout");
        }
        settle = true;
        for (int n = 0; n < 2 * ROUNDS && began != done; n++)
        {
            sym_yield();
            ready(0);
            ready(lastwant ? (unsigned)lastwant : EPOLLIN | EPOLLOUT);
            s->process_events(milliseconds{0});
        }
        SYM_ASSERT(done == ROUNDS, "an operation never finishes");
        SYM_ASSERT(env::entries() == entries0, "a registration is left in the epoll set");
        SYM_ASSERT(s->empty(), "size() is not zero");
    }
    SYM_ASSERT(ssls == 0 && ctxs == 0, "an OpenSSL object is leaked");
    SYM_ASSERT(env::open_fds() == 0, "a descriptor is leaked");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
