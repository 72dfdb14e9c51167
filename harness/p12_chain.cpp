// coro::task: nested awaits; values of every kind and exceptions travel through a chain of tasks, each level once.
#include "hx.hpp"
#include <coro/task.hpp>
#include <memory>
#include <string>
#ifndef DEPTH
#define DEPTH 3
#endif
static hx::counts C;
static int        order[32], no, entered[8], left[8];
static hx::gate   G;
static uint64_t   throw_at, catch_at, susp;
struct oops { uint64_t v; };
static coro::task<hx::tracked> level(int d, uint64_t v)
{
    entered[d]++;
    hx::tracked loc(C, d);
    struct on_exit { int d; ~on_exit() { left[d]++; order[no++] = d; } } x{d};
    if (d == 0)
    {
        if (susp) co_await G;
        if (throw_at == 0) throw oops{v};
        co_return hx::tracked(C, v);
    }
    if (throw_at == (uint64_t)d && sym::flip()) throw oops{v};
    if (catch_at == (uint64_t)d)
    {
        bool caught = false;
        try
        {
            hx::tracked r = co_await level(d - 1, v);
            co_return r;
        }
        catch (const oops& o)
        {
            SYM_ASSERT(o.v == v, "a different exception");
            caught = true;
        }
        SYM_ASSERT(caught, "caught");
        co_return hx::tracked(C, v);
    }
    hx::tracked r = co_await level(d - 1, v);
    SYM_ASSERT(left[d - 1] == 1, "the awaiter runs before the awaited body's locals are destroyed");
    co_return std::move(r);
}
static coro::task<std::unique_ptr<hx::tracked>> move_only(uint64_t v) { co_return std::make_unique<hx::tracked>(C, v); }
static coro::task<const uint64_t>               constant(uint64_t v) { co_return v; }
static coro::task<uint64_t&>                    ref(uint64_t& v) { co_return v; }
static coro::task<const uint64_t&>              cref(const uint64_t& v) { co_return v; }
static coro::task<void>                         nothing(uint64_t& v) { v++; co_return; }
struct pinned { uint64_t v; explicit pinned(uint64_t x) : v(x) {} pinned(const pinned&) = default; pinned(pinned&&) = delete; };
struct pair_t { uint64_t a; hx::tracked b; };
static coro::task<pair_t> aggregate(uint64_t v) { co_return {v, hx::tracked(C, v)}; }
static int result;
static hx::detached run(uint64_t v)
{
    bool ex = false;
    try { hx::tracked r = co_await level(DEPTH, v); SYM_ASSERT(r.value() == v, "a different value"); }
    catch (const oops& o) { SYM_ASSERT(o.v == v, "a different exception"); ex = true; }
    result = ex ? 2 : 1;
}
static hx::detached kinds(uint64_t v, bool& done)
{
    auto p = co_await move_only(v);
    SYM_ASSERT(p && p->value() == v, "move-only result");
    auto mt = move_only(v);
    auto q  = co_await std::move(mt);
    SYM_ASSERT(q && q->value() == v, "move-only result of an rvalue task");
    SYM_ASSERT(co_await constant(v) == v, "const result");
    uint64_t x = v;
    uint64_t& r = co_await ref(x);
    SYM_ASSERT(&r == &x, "reference result");
    const uint64_t& cr = co_await cref(x);
    SYM_ASSERT(&cr == &x, "const reference result");
    co_await nothing(x);
    SYM_ASSERT(x == v + 1, "void task");
    auto t = aggregate(v);
    for (int i = 0; i < 2; i++)
    {
        auto a = co_await t;
        SYM_ASSERT(a.a == v && a.b.value() == v, "aggregate result read twice");
    }
    pair_t b = co_await std::move(t);
    SYM_ASSERT(b.a == v && b.b.value() == v, "aggregate result moved out");
    // never run: asking for the result throws
    auto u = constant(v);
    bool threw = false;
    try { (void)u.promise().result(); } catch (const std::runtime_error&) { threw = true; }
    SYM_ASSERT(threw, "the result of a task that never ran");
    done = true;
}
extern "C" void sym_main()
{
    auto     base = sym_live_heap();
    uint64_t v    = sym::u64();
    bool     done = false;
    kinds(v, done);
    SYM_ASSERT(done, "an awaiter was not resumed");
    throw_at = sym::range(0, DEPTH + 1, 3);
    catch_at = sym::range(1, DEPTH + 1, 3);
    susp     = sym::flip();
    run(v);
    if (result == 0)
    {
        SYM_ASSERT(susp && entered[0] == 1 && no == 0, "the chain stopped");
        sym_reach(2);
        G.open();
    }
    SYM_ASSERT(result != 0, "the outer awaiter is never resumed");
    bool inner = throw_at <= DEPTH && !(throw_at > 0 && entered[throw_at - 1]);
    SYM_ASSERT((result == 2) == (inner && !(catch_at <= DEPTH && catch_at > throw_at)), "value and exception are confused");
    for (int d = 0; d <= DEPTH; d++) SYM_ASSERT(entered[d] == left[d] && entered[d] <= 1, "a body runs twice or never ends");
    for (int k = 1; k < no; k++) SYM_ASSERT(order[k] == order[k - 1] + 1, "an awaiter runs before the awaited body has finished");
    SYM_ASSERT(C.alive == 0, "an object is leaked");
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
