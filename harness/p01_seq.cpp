// coro::mutex driven through every sequence of operations on two scoped_lock objects and two mutexes.
#include "hx.hpp"
#include <coro/mutex.hpp>
#include <coro/task.hpp>
#include <optional>
#include <stdexcept>
#ifndef STEPS
#define STEPS 4
#endif
using SL = coro::scoped_lock;
static coro::mutex* M[2];
static int holder[2]; // 0: free, 1: held by slot 0, 2: held by slot 1, 3: held by a raw lock
static bool is_free(int i)
{
    bool ok = M[i]->try_lock();
    if (ok) M[i]->unlock();
    return ok;
}
static coro::task<void> take(int m, std::optional<SL>& s) { s.emplace(co_await M[m]->scoped_lock()); }
static coro::task<void> raw(int m) { co_await M[m]->lock(); }
extern "C" void sym_main()
{
    coro::mutex a, b;
    M[0] = &a; M[1] = &b;
    std::optional<SL> s[2];
    int owns[2] = {-1, -1}; // which mutex the slot's lock object owns
    for (int st = 0; st < STEPS; st++)
    {
        int op = (int)sym::range(0, 7), x = sym::flip(), y = 1 - x, m = sym::flip();
        sym::flag f;
        if (op == 0) // lock through the slot when nobody holds the mutex and the slot is empty
        {
            sym_assume(holder[m] == 0 && !s[x]);
            hx::start(take(m, s[x]), f);
            SYM_ASSERT(f.get(), "scoped_lock() on a free mutex suspended");
            holder[m] = x + 1; owns[x] = m;
        }
        else if (op == 1) // move construct y from x
        {
            sym_assume(s[x] && !s[y]);
            s[y].emplace(std::move(*s[x]));
            owns[y] = owns[x]; owns[x] = -1;
            if (owns[y] >= 0) holder[owns[y]] = y + 1;
        }
        else if (op == 2) // move assign y = x
        {
            sym_assume(s[x] && s[y]);
            *s[y] = std::move(*s[x]);
            if (owns[y] >= 0) holder[owns[y]] = 0;
            owns[y] = owns[x]; owns[x] = -1;
            if (owns[y] >= 0) holder[owns[y]] = y + 1;
        }
        else if (op == 3) // early unlock
        {
            sym_assume((bool)s[x]);
            s[x]->unlock();
            if (owns[x] >= 0) holder[owns[x]] = 0;
            owns[x] = -1;
        }
        else if (op == 4) // destroy
        {
            sym_assume((bool)s[x]);
            s[x].reset();
            if (owns[x] >= 0) holder[owns[x]] = 0;
            owns[x] = -1;
        }
        else if (op == 5) // self move assignment keeps the lock
        {
            sym_assume((bool)s[x]);
            auto& r = *s[x];
            *s[x] = std::move(r);
        }
        else if (op == 6) // raw lock / unlock
        {
            if (holder[m] == 0) { hx::start(raw(m), f); SYM_ASSERT(f.get(), "lock() on a free mutex suspended"); holder[m] = 3; }
            else { sym_assume(holder[m] == 3); M[m]->unlock(); holder[m] = 0; }
        }
        else // unlocking a free mutex throws and changes nothing
        {
            sym_assume(holder[m] == 0);
            bool thrown = false;
            try { M[m]->unlock(); } catch (const std::runtime_error&) { thrown = true; }
            SYM_ASSERT(thrown, "unlock of an unlocked mutex did not throw");
        }
        for (int i = 0; i < 2; i++) SYM_ASSERT(is_free(i) == (holder[i] == 0), "a scoped_lock did not release its mutex exactly once");
    }
    s[0].reset(); s[1].reset();
    for (int i = 0; i < 2; i++) if (holder[i] == 3) M[i]->unlock();
    SYM_ASSERT(is_free(0) && is_free(1), "a mutex is still locked after its scoped_lock was destroyed");
    sym_reach(1);
}
