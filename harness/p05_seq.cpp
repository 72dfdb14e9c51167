// coro::shared_mutex: every sequence of requests and releases against the FIFO reader/writer specification.
#include "exec.hpp"
#include <coro/shared_mutex.hpp>
#ifndef PRE
#define PRE 0
#endif
#ifndef STEPS
#define STEPS 5
#endif
using E  = hx::exec;
using SM = coro::shared_mutex<E>;
enum { IDLE, WAITING, HOLDING, GONE };
static int      st_[16];      // what the coroutines observed
static bool     excl[16];
static int      n;
static hx::gate gates[16];
static hx::detached user(SM& m, int id, bool ex)
{
    st_[id] = WAITING;
    if (ex) co_await m.lock(); else co_await m.lock_shared();
    SYM_ASSERT(st_[id] == WAITING, "granted twice");
    st_[id] = HOLDING;
    co_await gates[id];
    if (ex) co_await m.unlock(); else co_await m.unlock_shared();
    SYM_ASSERT(st_[id] == GONE, "unlock finished twice or early");
}
static coro::task<void> body(int id)
{
    SYM_ASSERT(st_[id] == WAITING, "granted twice");
    st_[id] = HOLDING;
    co_await gates[id];
}
static hx::detached scoped(SM& m, int id, bool ex)
{
    st_[id] = WAITING;
    if (ex) co_await m.scoped_lock(body(id)); else co_await m.scoped_lock_shared(body(id));
    SYM_ASSERT(st_[id] == GONE, "the scoped task did not complete first");
}
static hx::detached tried(SM& m, int id, bool ex)
{
    st_[id] = HOLDING;
    co_await gates[id];
    if (ex) co_await m.unlock(); else co_await m.unlock_shared();
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        std::unique_ptr<E> e = std::make_unique<E>();
        SM  m(e);
        int want[16], queue[16], qh = 0, qt = 0, nr = 0, nw = 0;
        auto release = [&](int id)
        {
            want[id] = GONE; st_[id] = GONE;
            if (excl[id]) nw--; else nr--;
            if (nr + nw == 0 && qh < qt)
            {
                if (excl[queue[qh]]) { nw++; want[queue[qh++]] = HOLDING; }
                else while (qh < qt && !excl[queue[qh]]) { nr++; want[queue[qh++]] = HOLDING; }
            }
            gates[id].open();
            e->run();
        };
        for (int s = 0; s < STEPS; s++)
        {
            int op = s < PRE ? 0 : (int)sym::range(0, 3);
            if (op < 3)
            {
                bool ex = sym::flip(), free = ex ? nr + nw == 0 : nw == 0 && qh == qt;
                int  id = n;
                if (op == 2)
                {
                    bool r = ex ? m.try_lock() : m.try_lock_shared();
                    SYM_ASSERT(r == free, "try_lock result");
                    if (!r) continue;
                    n++; excl[id] = ex; want[id] = HOLDING;
                    if (ex) nw++; else nr++;
                    tried(m, id, ex);
                }
                else
                {
                    n++; excl[id] = ex;
                    if (op == 0) user(m, id, ex); else scoped(m, id, ex);
                    if (free) { want[id] = HOLDING; if (ex) nw++; else nr++; }
                    else { want[id] = WAITING; queue[qt++] = id; }
                }
            }
            else
            {
                if (n == 0) continue;
                int id = n == 1 ? 0 : (int)sym_concretize(sym::range(0, n - 1));
                if (want[id] != HOLDING) continue;
                release(id);
            }
            for (int i = 0; i < n; i++) SYM_ASSERT(st_[i] == want[i], "the lock is granted to the wrong coroutines");
        }
        for (int k = 0; k < n; k++)
            for (int i = 0; i < n; i++) if (want[i] == HOLDING) { release(i); break; }
        for (int i = 0; i < n; i++) SYM_ASSERT(st_[i] == GONE, "a waiter was lost");
        SYM_ASSERT(m.try_lock(), "the lock is not free after the last unlock");
    }
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
