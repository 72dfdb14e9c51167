// coro::task_group with tasks running on threads of their own: awaiting it returns when every task has finished.
#include "exec.hpp"
#include <coro/task_group.hpp>
#include <vector>
#ifndef TASKS
#define TASKS 2
#endif
static int             finished[4], started_ok[4], begun[4];
static volatile int    tdone[4];
static int             nt;
struct thread_exec : hx::exec
{
    struct job { std::coroutine_handle<> h; int id; };
    job  jobs[4];
    bool resume(std::coroutine_handle<> h)
    {
#ifdef REFUSE
        if (sym::flip()) return false;
#endif
        jobs[nt] = job{h, nt};
        sym_thread_create([](void* p) { auto* j = static_cast<job*>(p); j->h.resume(); tdone[j->id] = 1; }, &jobs[nt]);
        nt++;
        return true;
    }
    void join() { for (int i = 0; i < nt; i++) sym_block(&tdone[i]); }
};
static hx::counts C;
static coro::task<void> body(int i, hx::tracked t)
{
    SYM_ASSERT(++begun[i] == 1, "a task is started twice");
    sym_yield();
    t.check();
    finished[i] = 1;
#ifdef THROW
    if (sym::flip()) throw 1;
#endif
    co_return;
}
using group = coro::task_group<thread_exec>;
static hx::detached awaiter(group& g, sym::flag& f)
{
    int before[4];
    for (int i = 0; i < TASKS; i++) before[i] = started_ok[i];
    co_await g;
    for (int i = 0; i < TASKS; i++) if (before[i]) SYM_ASSERT(finished[i], "co_await group returned while a task started before is unfinished");
    f.set();
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    thread_exec e;
    {
#ifdef CTOR
        std::vector<coro::task<void>> v;
        for (int i = 0; i < TASKS; i++) v.push_back(body(i, hx::tracked(C, i)));
        auto gp = std::make_unique<group>(&e, std::move(v)); group& g = *gp;
        for (int i = 0; i < TASKS; i++) started_ok[i] = 1;
        v.clear();
#else
        auto gp = std::make_unique<group>(&e); group& g = *gp;
        SYM_ASSERT(g.empty(), "a new group is not empty");
#ifdef STARTER // a second thread starts a task
        sym::thread st([&] { started_ok[TASKS - 1] = g.start(body(TASKS - 1, hx::tracked(C, TASKS - 1))); });
        const int N = TASKS - 1;
#else
        const int N = TASKS;
#endif
        int refused = 0;
        for (int i = 0; i < N; i++) { started_ok[i] = g.start(body(i, hx::tracked(C, i))); refused += !started_ok[i]; }
        if (refused == N && N == TASKS) { SYM_ASSERT(g.size() == 0, "a refused task is counted"); SYM_ASSERT(C.alive == 0, "a refused task is leaked"); }
        if (refused) sym_reach(2);
#endif
#ifndef NOWAIT
        sym::flag f;
        awaiter(g, f);
        f.wait();
#ifndef STARTER
        SYM_ASSERT(g.size() == 0 && g.empty(), "the group is not empty after awaiting it");
#endif
#endif
#ifdef STARTER
        st.join();
#endif
#ifdef NOWAIT
    }
    for (int i = 0; i < TASKS; i++) SYM_ASSERT(finished[i] == 1, "the group was destroyed before its tasks finished");
    {
#endif
    }
    e.join();
    for (int i = 0; i < TASKS; i++) SYM_ASSERT(finished[i] == started_ok[i] && begun[i] == started_ok[i], "a task did not run exactly once");
    SYM_ASSERT(C.alive == 0, "a task is leaked");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
