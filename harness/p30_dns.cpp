// dns::resolver against a c-ares that does anything it may do.
#include "hx.hpp"
#include "env.hpp"
#include <cerrno>
#include <coro/net/dns/resolver.hpp>
#include <coro/scheduler.hpp>
#include <cstring>
#include <netinet/in.h>
#include <optional>
#include <sys/socket.h>
#include <unistd.h>
#ifndef QUERIES // asked for one after another
#define QUERIES 1
#endif
#ifndef TOGETHER // asked for at the same time
#define TOGETHER 1
#endif
#ifndef STEPS
#define STEPS 3
#endif
#ifndef NODES
#define NODES 2
#endif
#ifndef ACTS
#define ACTS 5
#endif
using namespace std::chrono;
using resolver = coro::net::dns::resolver<coro::scheduler>;
static constexpr int MAXQ = TOGETHER, MAXC = 2;
struct query
{
    int                    used, outcome, nodes, callbacks; // outcome: 0 pending, 1 addresses, 2 failed
    bool                   v6[NODES];
    unsigned char          bytes[NODES][16];
    ares_addrinfo_callback cb;
    void*                  arg;
};
static int                    other; // the channel of another resolver
static bool                   other_next, bytime;
static query                  Q[MAXQ];
static int                    conn[MAXC] = {-1, -1}, interest[MAXC], nconn, lib, chan, infos, done, began, processed, hot;
static bool                   settle, inside, destroyed, initfail, syncfail;
static ares_sock_state_cb     state_cb;
static void*                  state_data;
static coro::scheduler*       S;
static resolver*              R;
static unsigned               seen;
static void interested(int c, int r, int w)
{
#if TOGETHER == 1
    w = (int)sym_concretize(w);
#endif
    interest[c] = (r ? EPOLLIN : 0) | (w ? EPOLLOUT : 0);
    state_cb(state_data, conn[c], r, w);
}
static void open_conn(bool w)
{
    for (int c = 0; c < MAXC; c++)
        if (conn[c] < 0)
        {
            nconn++;
            conn[c] = env::user_fd();
            interested(c, 1, w);
            return;
        }
}
static void close_conn(int c)
{
    if (conn[c] < 0) return;
    nconn--;
    interested(c, 0, 0);
    ::close(conn[c]);
    conn[c] = -1;
}
static int pending()
{
    int n = 0;
    for (auto& q : Q) n += q.used && !q.outcome;
    return n;
}
static void finish(query& q, int status, ares_addrinfo* ai)
{
    q.outcome = ai ? 1 : 2;
    q.callbacks++;
    q.cb(q.arg, status, 0, ai);
}
static bool          v6[NODES];
static unsigned char bytes[NODES][16];
static ares_addrinfo* answer(query& q, int count)
{
    auto* ai = new ares_addrinfo{};
    infos++;
    ares_addrinfo_node** tail = &ai->nodes;
    q.nodes                   = count;
    for (int i = 0; i < count; i++)
    {
        auto* n     = new ares_addrinfo_node{};
        q.v6[i]     = v6[i];
        n->ai_family = q.v6[i] ? AF_INET6 : AF_INET;
        for (int b = 0; b < 16; b++) q.bytes[i][b] = bytes[i][b];
        if (q.v6[i])
        {
            auto* a      = new sockaddr_in6{};
            a->sin6_family = AF_INET6;
            std::memcpy(&a->sin6_addr, q.bytes[i], 16);
            n->ai_addr = (sockaddr*)a;
            n->ai_addrlen = sizeof *a;
        }
        else
        {
            auto* a     = new sockaddr_in{};
            a->sin_family = AF_INET;
            std::memcpy(&a->sin_addr, q.bytes[i], 4);
            n->ai_addr = (sockaddr*)a;
            n->ai_addrlen = sizeof *a;
        }
        *tail = n;
        tail  = &n->ai_next;
    }
    return ai;
}
extern "C"
{
int         symrt_ares_library_init(int) { lib++; return ARES_SUCCESS; }
void        symrt_ares_library_cleanup() { lib--; }
const char* symrt_ares_strerror(int) { return "ares"; }
int         symrt_ares_init_options(ares_channel* c, ares_options* o, int mask)
{
    SYM_ASSERT((mask & ARES_OPT_SOCK_STATE_CB) && lib > 0, "c-ares is not initialised");
    if (initfail) return ARES_ENOMEM;
    if (!other_next)
    {
        state_cb   = o->sock_state_cb;
        state_data = o->sock_state_cb_data;
        chan++;
    }
    *c         = (ares_channel)(other_next ? &other : &chan);
    other_next = false;
    return ARES_SUCCESS;
}
void symrt_ares_destroy(ares_channel ch)
{
    SYM_ASSERT(lib > 0, "c-ares is cleaned up while a resolver uses it");
    if (ch == (ares_channel)&other) return;
    SYM_ASSERT(!inside && chan == 1, "the channel is destroyed while c-ares works on it");
    chan--;
    destroyed = true;
    for (auto& q : Q)
        if (q.used && !q.outcome) finish(q, ARES_EDESTRUCTION, nullptr);
    for (int c = 0; c < MAXC; c++) close_conn(c);
}
void symrt_ares_freeaddrinfo(ares_addrinfo* ai)
{
    infos--;
    for (auto* n = ai->nodes; n;)
    {
        auto* next = n->ai_next;
        if (n->ai_family == AF_INET6) delete (sockaddr_in6*)n->ai_addr;
        else delete (sockaddr_in*)n->ai_addr;
        delete n;
        n = next;
    }
    delete ai;
}
static bool is_name(const char* s, char k) { return s[0] == 'h' && s[1] == k && s[2] == '.' && s[3] == 'x' && s[4] == 0; }
void        symrt_ares_getaddrinfo(ares_channel, const char* name, const char* service, const ares_addrinfo_hints* h, ares_addrinfo_callback cb, void* arg)
{
    SYM_ASSERT(chan == 1, "the channel is gone");
    SYM_ASSERT(lib > 0, "c-ares is cleaned up while a resolver uses it");
    SYM_ASSERT(service == nullptr && h->ai_family == AF_UNSPEC, "not both families are asked for");
    auto fail = sym::flip();
    auto w    = sym::flip();
    int  i    = name[1] - '0';
    SYM_ASSERT(i >= 0 && i < MAXQ && is_name(name, name[1]), "another name is looked up");
    auto& q = Q[i];
    SYM_ASSERT(!q.used || q.outcome, "the name is looked up twice");
    q    = query{};
    q.used = 1;
    q.cb = cb;
    q.arg = arg;
    if (fail && !settle) { finish(q, ARES_ENOTFOUND, nullptr); return; }
    if (!nconn) open_conn(w);
}
void symrt_ares_process_fd(ares_channel, ares_socket_t r, ares_socket_t w)
{
    SYM_ASSERT(chan == 1, "the channel is gone");
    SYM_ASSERT(!inside, "c-ares is called from its own callback");
    inside = true;
    processed++;
    auto act  = sym_concretize(sym::range(0, ACTS - 1, 3));
    auto which = sym_concretize(sym::range(0, MAXQ - 1, 2));
    auto num  = sym_concretize(sym::range(0, NODES, 2));
    auto wr   = sym::flip();
    for (int i = 0; i < NODES; i++)
    {
        v6[i] = sym::flip();
        for (int b = 0; b < 16; b++) bytes[i][b] = (unsigned char)sym_input(8);
    }
    bool bad = false, moves = false;
    int  c    = -1;
    for (int k = 0; k < MAXC; k++)
        if (conn[k] >= 0 && (conn[k] == r || conn[k] == w))
        {
            auto* o = env::get(conn[k]);
            c       = k;
            bad     = o->ready & (EPOLLERR | EPOLLHUP | EPOLLRDHUP);
            moves   = (r != ARES_SOCKET_BAD && (o->ready & EPOLLIN)) || (w != ARES_SOCKET_BAD && (o->ready & EPOLLOUT));
            if (r != ARES_SOCKET_BAD) o->ready &= ~(unsigned)EPOLLIN;
        }
    if (r == ARES_SOCKET_BAD && w == ARES_SOCKET_BAD) sym_reach(5);
    else if (c < 0) act = 0; // not a socket of the channel
    if (settle && act != 2) act = 1;
    if (c >= 0 && !moves && !bad) act = 0; // reading or writing would block
    act = sym_concretize(act);
    auto open = [](query& q) { return q.used && !q.outcome; };
    if (settle)
        while (!open(Q[which]) && pending()) which = (which + 1) % MAXQ;
    auto& x = Q[which];
    bool  p = open(x);
    if (act == 1 && p) finish(x, ARES_SUCCESS, answer(x, (int)num));
    else if (act == 2 && p) finish(x, ARES_ETIMEOUT, nullptr);
    else if (act == 3 && c >= 0) interested(c, 1, wr);
    else if (act == 4 && pending() && nconn < MAXC) open_conn(wr);
    if (bad) // the socket failed: c-ares drops it and tries again with another one
    {
        close_conn(c);
        if (pending() && !nconn) open_conn(wr);
    }
    if (!pending())
        for (int k = 0; k < MAXC; k++) close_conn(k);
    inside = false;
}
}
static hx::detached user(int i)
{
    for (int n = 0; n < QUERIES; n++)
    {
        began++;
        char name[] = "h0.x";
        name[1]     = (char)('0' + i);
        auto  r     = co_await R->host_by_name(coro::net::hostname{name});
        auto& q     = Q[i];
        done++;
        SYM_ASSERT(q.outcome && q.callbacks == 1 && r, "the lookup ends before c-ares has reported its outcome");
        if (q.outcome == 2)
        {
            SYM_ASSERT(r->status() == coro::net::dns::status::error && r->ip_addresses().empty(), "a failure is not reported");
            sym_reach(3);
        }
        else
        {
            SYM_ASSERT(r->status() == coro::net::dns::status::complete, "a success is not reported");
            auto& v = r->ip_addresses();
            SYM_ASSERT(v.size() == (size_t)q.nodes, "the number of addresses is not the number reported");
            for (int k = 0; k < q.nodes; k++)
            {
                SYM_ASSERT(v[k].domain() == (q.v6[k] ? coro::net::domain_t::ipv6 : coro::net::domain_t::ipv4), "another family");
                auto d = v[k].data();
                SYM_ASSERT(d.size() == (q.v6[k] ? 16u : 4u), "another length");
                bool same = true;
                for (size_t b = 0; b < d.size(); b++) same &= d[b] == q.bytes[k][b];
                SYM_ASSERT(same, "another address");
            }
            sym_reach(2);
        }
    }
}
static constexpr unsigned masks[] = {0, EPOLLIN | EPOLLOUT, EPOLLIN, EPOLLERR, EPOLLIN | EPOLLRDHUP, EPOLLHUP};
static void ready(int c, unsigned m)
{
    if (c < MAXC && conn[c] >= 0) env::set_ready(conn[c], m);
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        auto s = coro::scheduler::make_unique(coro::scheduler::options{
            .thread_strategy = coro::scheduler::thread_strategy_t::manual, .execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline});
        S              = s.get();
        int entries0   = env::entries();
#ifdef REUSE
        env::K.reuse = 1;
#endif
        long long ms = TMIN + (long long)sym_concretize(sym::range(0, 1, 1));
#ifdef INITFAIL
        initfail = true;
        bool threw = false;
        try { resolver r{s, milliseconds{ms}}; }
        catch (const std::runtime_error&) { threw = true; }
        SYM_ASSERT(threw && lib == 0, "c-ares stays initialised although the resolver could not be built");
        initfail = false;
#endif
        std::optional<resolver> r;
        r.emplace(s, milliseconds{ms});
        R = &*r;
#ifdef TWO
        other_next = true;
        {
            resolver r2{s, milliseconds{ms}};
        }
#endif
        for (int i = 0; i < TOGETHER; i++) user(i);
        for (int n = 0; n < STEPS; n++)
        {
            sym_yield();
            auto mk  = sym_concretize(sym::range(0, sizeof masks / sizeof *masks - 1, 3));
            auto adv = sym::flip();
            ready(0, masks[mk]);
            if (adv) sym_clock_ns += 1100000;
            s->process_events(milliseconds{0});
        }
        auto bt = sym_concretize(sym::flip());
        bytime  = TMIN > 0 && TOGETHER == 1 && bt; // nothing but time passes from now on
        settle  = true;
#ifdef DESTROY
        R = nullptr;
        r.reset();
        for (int n = 0; n < 6; n++)
        {
            sym_yield();
            sym_clock_ns += 5000000;
            s->process_events(milliseconds{0});
        }
#else
        for (int n = 0; n < 8 && began != done; n++)
        {
            sym_yield();
            if (bytime) sym_clock_ns += 5000000;
            for (int c = 0; c < MAXC; c++) if (conn[c] >= 0) ready(c, bytime ? 0 : TOGETHER > 1 ? EPOLLIN | EPOLLOUT : interest[c] & EPOLLOUT ? EPOLLOUT : EPOLLIN); // writable first
            s->process_events(milliseconds{0});
        }
#endif
        SYM_ASSERT(done == TOGETHER * QUERIES, "a lookup never finishes");
        for (int n = 0; n < 3; n++)
        {
            sym_clock_ns += 5000000;
            s->process_events(milliseconds{0});
        }
        r.reset();
        SYM_ASSERT(env::entries() == entries0, "a registration is left in the epoll set");
        SYM_ASSERT(s->empty(), "a poll is left behind");
    }
    SYM_ASSERT(infos == 0 && lib == 0 && chan == 0, "c-ares allocations are leaked");
    SYM_ASSERT(env::open_fds() == 0, "a descriptor is leaked");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
