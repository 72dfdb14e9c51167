// coro::task: every sequence of create / move / resume / await / destroy on two task objects against a model.
#include "hx.hpp"
#include <coro/task.hpp>
#ifndef STEPS
#define STEPS 4
#endif
#ifndef KIND
#define KIND 0
#endif
static hx::counts A, L, V; // arguments, locals, values
struct info { int started = 0, finished = 0, susp = 0, left = 0, awaited = 0, resumed = 0; bool thr = false, live = false; uint64_t val = 0; };
static info  I[8];
static int   made;
struct oops { uint64_t v; };
#if KIND == 0
using R = hx::tracked;
#elif KIND == 1
using R = hx::tracked&;
static hx::tracked* Obj[8];
#else
using R = void;
#endif
static coro::task<R> body(int id, hx::tracked a)
{
    info& i = I[id];
    SYM_ASSERT(++i.started == 1, "a task body is started twice");
    hx::tracked loc(L, id);
    for (int k = 0; k < i.susp; k++)
    {
        co_await std::suspend_always{};
        i.left--;
    }
    a.check(); loc.check();
    i.finished = 1;
    if (i.thr) throw oops{i.val};
#if KIND == 0
    co_return hx::tracked(V, i.val);
#elif KIND == 1
    co_return *Obj[id];
#else
    co_return;
#endif
}
static void outcome(int id, bool ex, uint64_t v)
{
    info& i = I[id];
    i.resumed++;
    SYM_ASSERT(i.finished, "the awaiter runs before the body finished");
    SYM_ASSERT(ex == i.thr, "value and exception are confused");
    SYM_ASSERT(v == i.val, "the awaiter got a different result");
}
#if KIND == 2
#define GET(x) (co_await (x), i.val)
#elif KIND == 1
#define GET(x) addr(co_await (x), id)
static uint64_t addr(hx::tracked& r, int id) { SYM_ASSERT(&r == Obj[id], "a different object is returned"); return r.value(); }
#else
#define GET(x) (co_await (x)).value()
#endif
static hx::detached await_l(coro::task<R>& t, int id)
{
    [[maybe_unused]] info& i = I[id];
    bool ex = false; uint64_t v = 0;
    try { v = GET(t); } catch (const oops& o) { ex = true; v = o.v; }
    outcome(id, ex, v);
}
static hx::detached await_r(coro::task<R> t, int id)
{
    [[maybe_unused]] info& i = I[id];
    bool ex = false; uint64_t v = 0;
    try { v = GET(std::move(t)); } catch (const oops& o) { ex = true; v = o.v; }
    SYM_ASSERT(!(L.alive > 0 && false), "");
    outcome(id, ex, v);
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        std::unique_ptr<coro::task<R>> s[2] = {std::make_unique<coro::task<R>>(), std::make_unique<coro::task<R>>()};
        int m[2] = {-1, -1}, awaits = 0;
        auto drop = [&](int id) { if (id >= 0) I[id].live = false; };
        for (int n = 0; n < STEPS; n++)
        {
            sym_yield();
            auto op = sym::range(0, 5, 3);
            int  a  = sym::flip();
            a       = sym_concretize(a);
            auto& i = I[m[a] < 0 ? 7 : m[a]];
            // an awaited, unfinished task must neither be destroyed nor be moved over
            bool pending = m[a] >= 0 && i.awaited > i.resumed;
            if (op == 0)
            {
                if (pending) continue;
                int id = made++;
#if KIND == 1
                Obj[id] = new hx::tracked(V, 0);
#endif
                I[id].susp = I[id].left = sym_concretize(sym::flip());
                I[id].thr = sym::flip();
                I[id].val = sym::u64();
#if KIND == 1
                if (!I[id].thr) Obj[id]->v = I[id].val;
#endif
                I[id].live = true;
                *s[a] = body(id, hx::tracked(A, id));
                drop(m[a]);
                m[a] = id;
            }
            else if (op == 1)
            {
                int b = sym_concretize(sym::flip());
                if (pending && a != b) continue;
                *s[a] = std::move(*s[b]);
                if (a != b) { drop(m[a]); m[a] = m[b]; m[b] = -1; }
            }
            else if (op == 2)
            {
                if (m[a] < 0) continue;
                bool more = s[a]->resume();
                SYM_ASSERT(more == !s[a]->is_ready(), "resume() reports the wrong state");
                SYM_ASSERT(i.started == 1, "resume() did not start the body");
            }
            else if (op == 3)
            {
                if (pending) continue;
                bool r = s[a]->destroy();
                SYM_ASSERT(r == (m[a] >= 0), "destroy() reports the wrong outcome");
                drop(m[a]); m[a] = -1;
            }
            else if (op == 4)
            {
                if (m[a] < 0 || pending || (i.started && !i.finished)) continue;
                i.awaited++; awaits++;
                await_l(*s[a], m[a]);
                SYM_ASSERT(i.started == 1, "awaiting did not start the body");
            }
            else
            {
                if (m[a] < 0 || pending || i.started) continue;
                int id = m[a];
                if (i.susp) { continue; }
                i.awaited++; awaits++;
                m[a] = -1;
                await_r(std::move(*s[a]), id);
                SYM_ASSERT(i.resumed == i.awaited, "the awaiter of a finished task is not resumed");
                drop(id);
            }
            int alive = 0, run = 0;
            for (int k = 0; k < made; k++)
            {
                alive += I[k].live;
                run += I[k].live && I[k].started && !I[k].finished;
                SYM_ASSERT(I[k].started == 0 || I[k].finished == (I[k].left == 0), "the body's progress");
                SYM_ASSERT(!I[k].finished || I[k].resumed == I[k].awaited, "an awaiter is resumed too often, or not at all");
                SYM_ASSERT(I[k].finished || I[k].resumed == 0, "an awaiter is resumed early");
            }
            SYM_ASSERT(A.alive == alive, "a frame (its arguments) is destroyed too early, twice or never");
            SYM_ASSERT(L.alive == run, "the locals of a body are not destroyed when it finishes");
            for (int k = 0; k < 2; k++)
            {
                SYM_ASSERT(s[k]->is_ready() == (m[k] < 0 || I[m[k]].finished), "is_ready()");
                SYM_ASSERT((s[k]->handle() != nullptr) == (m[k] >= 0), "a task object holds a coroutine it was not given");
            }
        }
        // finish what is awaited, then move-construct out of the slots and destroy
        for (int a = 0; a < 2; a++)
            if (m[a] >= 0 && I[m[a]].awaited > I[m[a]].resumed)
                while (s[a]->resume()) {}
        for (int a = 0; a < 2; a++)
        {
            coro::task<R> t(std::move(*s[a]));
            SYM_ASSERT(s[a]->handle() == nullptr && (t.handle() != nullptr) == (m[a] >= 0), "move construction");
        }
        int res = 0;
        for (int k = 0; k < made; k++) res += I[k].resumed;
        SYM_ASSERT(res == awaits, "an awaiter was lost");
        if (awaits && made && I[0].thr) sym_reach(2);
#if KIND == 1
        for (int k = 0; k < made; k++) delete Obj[k];
#endif
    }
    SYM_ASSERT(A.alive == 0 && L.alive == 0, "a frame is leaked");
    SYM_ASSERT(V.alive == 0, "a result is leaked or destroyed twice");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
