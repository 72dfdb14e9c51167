// scheduler::poll on a manually driven event loop: one outcome, the right one, nothing left behind.
#include "hx.hpp"
#include "env.hpp"
#include <coro/scheduler.hpp>
#include <memory>
using namespace std::chrono;
#ifndef TB
#define TB 6 // bits of a timeout in milliseconds
#endif
#ifndef OPS
#define OPS 3
#endif
#ifndef POLLS
#define POLLS 2
#endif
#ifndef STEPS
#define STEPS 3
#endif
#ifndef FDS
#define FDS POLLS
#endif
#ifndef ROUNDS
#define ROUNDS 1
#endif
static coro::scheduler*                        S;
static int                                     fds[4];
static std::unique_ptr<coro::poll_stop_source> src[4];
static int                                     done[4], began[4];
static unsigned                                seen[4]; // every readiness the descriptor has had since the poll began
static bool                                    stopped[4], tok[4];
static long long                               due[4];
static hx::detached poller(int i, coro::poll_op op, long long ms)
{
    for (int r = 0; r < ROUNDS; r++)
    {
        int f  = i % FDS;
        due[i] = ms > 0 ? coro::clock::now().time_since_epoch().count() + ms * 1000000 : 0;
        seen[i] = env::get(fds[f])->ready;
        began[i]++;
        auto cancel = tok[i] ? std::optional<coro::poll_stop_token>{src[i]->get_token()} : std::nullopt;
        auto st     = co_await S->poll(fds[f], op, milliseconds{ms}, cancel);
        done[i]++;
        SYM_ASSERT(done[i] == began[i], "a poll is resumed twice");
        auto now = coro::clock::now().time_since_epoch().count();
        bool rd = (uint64_t)op & EPOLLIN, wr = (uint64_t)op & EPOLLOUT;
        switch (st)
        {
            case coro::poll_status::read: SYM_ASSERT(rd && (seen[i] & EPOLLIN), "poll reports read for a descriptor that is not readable"); break;
            case coro::poll_status::write: SYM_ASSERT(wr && (seen[i] & EPOLLOUT), "poll reports write for a descriptor that is not writable"); break;
            case coro::poll_status::timeout: SYM_ASSERT(due[i] && now >= due[i], "poll reports a timeout that has not passed"); break;
            case coro::poll_status::error: SYM_ASSERT((seen[i] & EPOLLERR) || env::K.failed, "poll reports an error nobody reported"); break;
            case coro::poll_status::closed: SYM_ASSERT(seen[i] & (EPOLLHUP | EPOLLRDHUP), "poll reports a hang-up nobody reported"); break;
            case coro::poll_status::cancelled: SYM_ASSERT(tok[i] && stopped[i], "poll is cancelled without a request"); break;
            default: sym_fail_msg("poll reports an unknown status");
        }
        int n = 0;
        for (int k = 0; k < POLLS; k++) n += began[k] != done[k] && k % FDS == f;
        SYM_ASSERT(env::watched(fds[f]) <= n, "the descriptor of a finished poll is still watched");
        if (tok[i]) SYM_ASSERT(env::watched(src[i]->get_token().native_handle()) == 0, "the stop token of a finished poll is still watched");
    }
}
static void ready(int f, unsigned m)
{
    for (int i = 0; i < POLLS; i++)
        if (i % FDS == f && began[i] != done[i]) seen[i] |= m;
    env::set_ready(fds[f], m);
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        auto s = coro::scheduler::make_unique(coro::scheduler::options{
            .thread_strategy = coro::scheduler::thread_strategy_t::manual, .execution_strategy = coro::scheduler::execution_strategy_t::process_tasks_inline});
        S              = s.get();
        env::K.shuffle = 1;
        int entries0   = env::entries();
        for (int f = 0; f < FDS; f++) fds[f] = env::user_fd();
#ifdef FAIL
        env::K.fail_at = (int)sym_concretize(sym::range(1, FAIL, 3));
#endif
        for (int i = 0; i < POLLS; i++)
        {
            static constexpr coro::poll_op ops[] = {coro::poll_op::read, coro::poll_op::write, coro::poll_op::read_write};
            static constexpr unsigned masks[] = {0, EPOLLIN, EPOLLOUT, EPOLLHUP, EPOLLERR, EPOLLIN | EPOLLRDHUP, EPOLLIN | EPOLLOUT, EPOLLRDHUP};
            sym_yield();
#ifndef NOSTOP
            tok[i] = sym::flip();
            if (tok[i]) src[i] = std::make_unique<coro::poll_stop_source>();
#endif
#ifdef PRE
            ready(i % FDS, masks[sym_concretize(sym::range(0, 7, 3))]);
#endif
            bool      has = sym::flip();
            long long ms  = (long long)sym_input(TB);
            if (!has) ms = 0;
            poller(i, ops[OPS > 1 ? sym_concretize(sym::range(0, OPS - 1, 2)) : 0], ms);
        }
        for (int n = 0; n < STEPS; n++)
        {
            sym_yield();
            static constexpr unsigned masks[] = {0, EPOLLIN, EPOLLOUT, EPOLLHUP, EPOLLERR, EPOLLIN | EPOLLRDHUP, EPOLLIN | EPOLLOUT, EPOLLRDHUP};
            int i = (int)sym_concretize(sym::range(0, POLLS - 1, 2));
            // every step draws the same inputs, whatever it does
            int  what = (int)sym_concretize(sym::range(0, 3, 2));
            auto mk = sym_input(3), adv = sym_input(TB);
            switch (what)
            {
                case 0: ready(i % FDS, masks[sym_concretize(mk)]); break;
                case 1:
                    if (tok[i] && began[i] != done[i] && !stopped[i]) { stopped[i] = true; src[i]->signal_stop(); }
                    break;
                case 2: s->process_events(milliseconds{0}); break;
                case 3: sym_clock_ns += (long long)adv * 1000000; break; // time passes
            }
        }
        auto open = [] { int n = 0; for (int i = 0; i < POLLS; i++) n += began[i] != done[i] || began[i] < ROUNDS; return n; };
        for (int n = 0; n < 4 * ROUNDS && open(); n++)
        {
            sym_yield();
            for (int f = 0; f < FDS; f++) ready(f, EPOLLIN | EPOLLOUT);
            auto sz = s->process_events(milliseconds{0});
            int  w  = 0;
            for (int i = 0; i < POLLS; i++) w += began[i] != done[i];
            SYM_ASSERT((int)sz == w, "size() is not the number of waiting polls");
        }
        SYM_ASSERT(!open(), "a poll is never resumed");
        SYM_ASSERT(env::entries() == entries0, "a registration is left in the epoll set");
        for (auto& o : env::K.of) SYM_ASSERT(!(o.kind == env::F_TIMER && o.refs && o.armed), "a timer of a finished poll is still armed");
        s->process_events(milliseconds{0}); // whatever is left would be delivered now
        SYM_ASSERT(s->empty(), "size() is not zero");
        for (auto& p : src) p.reset();
    }
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
