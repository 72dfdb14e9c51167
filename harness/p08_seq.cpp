// coro::queue: every sequence of push / emplace / pop / try_pop / shutdown / drain against a FIFO specification,
// with elements whose construction and destruction is tracked.
#include "exec.hpp"
#include <coro/queue.hpp>
#ifndef STEPS
#define STEPS 5
#endif
#ifndef OPS
#define OPS 2
#endif
using RB = coro::queue<hx::tracked>;
using produce = coro::queue_produce_result;
using consume = coro::queue_consume_result;
enum { PEND = 100, OK = 101 };
static int      pres[16], cres[16]; // outcome of each operation as observed
static uint64_t cval[16];
static int      finished;
static hx::detached prod(RB& b, hx::counts& k, uint64_t v, int id)
{
    pres[id] = PEND;
    int how = (int)sym::range(0, 2);
    hx::tracked x(k, v);
    auto r = how == 0 ? co_await b.push(x) : how == 1 ? co_await b.push(std::move(x)) : co_await b.emplace(k, v);
    SYM_ASSERT(pres[id] == PEND, "push resumed twice");
    pres[id] = (int)r;
}
static hx::detached cons(RB& b, int id)
{
    cres[id] = PEND;
    auto r = co_await b.pop();
    SYM_ASSERT(cres[id] == PEND, "consume resumed twice");
    if (r.has_value()) { cres[id] = OK; cval[id] = r->value(); }
    else cres[id] = (int)r.error();
}
static hx::detached run_(coro::task<void> t) { co_await t; finished++; }
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    hx::counts k;
    {
        RB   b;
        std::unique_ptr<hx::exec> e = std::make_unique<hx::exec>();
        // the specification
        uint64_t buf[32]; int bh = 0, bt = 0;                 // buffered values
        int      cw[16], ncw = 0;                             // waiting pops
        uint64_t pv[16]; int np = 0, nc = 0;
        int      wantp[16], wantc[16]; uint64_t wantv[16];
        int      state = 0;                                    // running, draining, stopped
        int      drains = 0, done = 0;
        auto stop = [&] { for (int i = 0; i < ncw; i++) wantc[cw[i]] = (int)consume::stopped; ncw = 0; state = 2; };
        for (int s = 0; s < STEPS; s++)
        {
            int op = (int)sym::range(0, OPS - 1);
            bool wakec = false; // one waiting operation (any) completes
            if (op == 0)
            {
                int id = np++; pv[id] = sym::u64();
                if (state != 0) wantp[id] = (int)produce::stopped;
                else if (ncw) { wantp[id] = (int)produce::produced; wakec = true; buf[bt++] = pv[id]; }
                else { wantp[id] = (int)produce::produced; buf[bt++] = pv[id]; }
                prod(b, k, pv[id], id);
            }
            else if (op == 1)
            {
                int id = nc++;
                if (state == 2) wantc[id] = (int)consume::stopped;
                else if (bt > bh)
                { wantc[id] = OK; wantv[id] = buf[bh++]; }
                else { wantc[id] = PEND; cw[ncw++] = id; }
                cons(b, id);
            }
            else if (op == 2)
            {
                auto r = b.try_pop();
                if (state == 2) SYM_ASSERT(!r.has_value() && r.error() == consume::stopped, "try_pop on a stopped queue");
                else if (bt == bh) SYM_ASSERT(!r.has_value() && r.error() == consume::empty, "try_pop on an empty queue");
                else { SYM_ASSERT(r.has_value() && r->value() == buf[bh], "try_pop returned the wrong element"); bh++; }
            }
            else if (op == 3)
            {
                if (state != 2) stop();
                run_(b.shutdown()); done++;
            }
            else
            {
                if (state == 0)
                {
                    state = 1; drains++;
                }
                else done++;
                run_(b.shutdown_drain(e));
            }
            if (wakec)
            {
                int i = 0;
                while (i < ncw && cres[cw[i]] == PEND) i++;
                SYM_ASSERT(i < ncw, "an element is there but no waiting consumer continues");
                wantc[cw[i]] = OK; wantv[cw[i]] = buf[bh++];
                for (ncw--; i < ncw; i++) cw[i] = cw[i + 1];
            }
            // the drain polls through its executor
            e->run_once();
            if (state == 1 && bh == bt) stop();
            if (drains && state == 2) { done++; drains = 0; }
            for (int i = 0; i < np; i++) SYM_ASSERT(pres[i] == wantp[i], "a produce has the wrong outcome");
            for (int i = 0; i < nc; i++)
            {
                SYM_ASSERT(cres[i] == wantc[i], "a consume has the wrong outcome");
                if (wantc[i] == OK) SYM_ASSERT(cval[i] == wantv[i], "a consumer received the wrong element");
            }
            SYM_ASSERT(finished == done, "a notify or shutdown did not finish when it should");
            SYM_ASSERT(state == 2 || ((int)b.size() == bt - bh && b.empty() == (bt == bh)), "size");
            SYM_ASSERT(b.is_shutdown() == (state != 0), "is_shutdown");
            if (state != 2) SYM_ASSERT(k.alive == bt - bh, "elements leaked or destroyed early");
        }
        if (state != 2) stop();
        run_(b.shutdown());
        e->run();
        for (int i = 0; i < np; i++) SYM_ASSERT(pres[i] == wantp[i], "shutdown left a producer suspended or changed an outcome");
        for (int i = 0; i < nc; i++) SYM_ASSERT(cres[i] == wantc[i], "shutdown left a consumer suspended or changed an outcome");
    }
    SYM_ASSERT(k.alive == 0 && k.made == k.dead, "elements leaked");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
