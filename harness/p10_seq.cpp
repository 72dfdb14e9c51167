// coro::condition_variable: every sequence of waits (all overloads), notifications, predicate changes, stop requests and
// expiring timers, against the specification.
#include "tex.hpp"
#include <coro/condition_variable.hpp>
#ifndef STEPS
#define STEPS 4
#endif
#ifndef KINDS
#define KINDS 6
#endif
#ifndef KIND0
#define KIND0 0
#endif
enum { NONE, WAIT, DONE };
static coro::mutex*              M;
static coro::condition_variable* C;
static std::unique_ptr<hx::tex>  X;
static std::stop_source*         S;
static bool                      P;
static int                       st_[16], res[16], kind_[16], tmr[16], n, finished;
static hx::detached waiter(int id, int kind, long long ns)
{
    auto lk   = co_await M->scoped_lock();
    auto pred = [] { return P; };
    st_[id]   = WAIT;
    int r     = -1;
    if (kind == 0) co_await C->wait(lk);
    else if (kind == 1) co_await C->wait(lk, pred);
    else if (kind == 2) r = co_await C->wait(lk, S->get_token(), pred);
    else if (kind == 3) r = (int)(co_await C->wait_for(X, lk, std::chrono::nanoseconds(ns)));
    else if (kind == 4) r = co_await C->wait_for(X, lk, std::chrono::nanoseconds(ns), pred);
    else r = co_await C->wait_for(X, lk, S->get_token(), std::chrono::nanoseconds(ns), pred);
    SYM_ASSERT(!M->try_lock(), "wait returned without holding the lock");
    SYM_ASSERT(st_[id] == WAIT, "a wait returned twice");
    st_[id] = DONE;
    res[id] = r;
}
static hx::detached run_(coro::task<void> t) { co_await t; finished++; }
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        coro::mutex m;
        coro::condition_variable cv;
        std::stop_source ss;
        M = &m; C = &cv; S = &ss;
        X = std::make_unique<hx::tex>();
        int  want[16], wres[16], done = 0;
        bool stop = false;
        auto eligible = [&](int i) { return kind_[i] == 0 || kind_[i] == 3 || P || ((kind_[i] == 2 || kind_[i] == 5) && stop); };
        auto value = [&](int i) { return kind_[i] <= 1 ? -1 : kind_[i] == 3 ? (int)std::cv_status::no_timeout : (int)P; };
        auto check = [&](const char* what)
        {
            (void)what;
            for (int i = 0; i < n; i++)
            {
                SYM_ASSERT(st_[i] == want[i], "a waiter is suspended that must run, or runs while it must wait");
                if (want[i] == DONE) SYM_ASSERT(res[i] == wres[i], "a wait reports the wrong result");
            }
            SYM_ASSERT(finished == done, "a notification did not finish");
            SYM_ASSERT(m.try_lock(), "the mutex stays locked");
            m.unlock();
        };
        for (int s = 0; s < STEPS; s++)
        {
            int op = (int)sym::range(0, 6);
            if (op == 0 && n < 3)
            {
                int id = n++, k = KIND0 + (int)sym_concretize(sym::range(0, KINDS - 1));
                auto ns = (long long)sym_input(62);
                kind_[id] = k;
                bool now = k != 0 && k != 3 && P;
                want[id] = now ? DONE : WAIT;
                if (now) wres[id] = value(id);
                int before = X->nt;
                waiter(id, k, ns);
                tmr[id] = k >= 3 && !now ? before : -1;
                SYM_ASSERT(X->nt == before + (k >= 3 && !now), "wait_for must start exactly one timer");
                if (tmr[id] >= 0) SYM_ASSERT(X->t[before].ns == ns, "the timer has the wrong duration");
            }
            else if (op == 1)
            {
                int el = 0, w = 0, before = 0, after = 0;
                for (int i = 0; i < n; i++) if (want[i] == WAIT) { w++; el += eligible(i); }
                run_(cv.notify_one()); done++;
                for (int i = 0; i < n; i++) if (want[i] == WAIT && st_[i] == DONE) { SYM_ASSERT(eligible(i), "a waiter was woken although its predicate is false"); after++; want[i] = DONE; wres[i] = value(i); }
                (void)before;
                SYM_ASSERT(after <= 1, "notify_one woke several waiters");
                if (w && el == w) SYM_ASSERT(after == 1, "notify_one woke nobody");
            }
            else if (op == 2 || op == 3)
            {
                for (int i = 0; i < n; i++) if (want[i] == WAIT && eligible(i)) { want[i] = DONE; wres[i] = value(i); }
                if (op == 2) { run_(cv.notify_all()); done++; } else cv.notify_all(X);
            }
            else if (op == 4) P = !P;
            else if (op == 5) { ss.request_stop(); stop = true; }
            else if (op == 6 && n)
            {
                int i = n == 1 ? 0 : (int)sym_concretize(sym::range(0, n - 1));
                if (tmr[i] < 0) continue;
                if (want[i] == WAIT) { want[i] = DONE; wres[i] = kind_[i] == 3 ? (int)std::cv_status::timeout : (int)P; }
                X->fire(tmr[i]);
                tmr[i] = -1;
            }
            else continue;
            check("step");
        }
        P = true;
        run_(cv.notify_all());
        for (int i = 0; i < X->nt; i++) X->fire(i);
        for (int i = 0; i < n; i++) SYM_ASSERT(st_[i] == DONE, "a waiter was lost");
        run_(cv.notify_all());
        X.reset();
    }
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
