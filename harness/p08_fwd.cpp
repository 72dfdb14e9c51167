// coro::queue: push and emplace treat their arguments as documented, whether a consumer waits or the element is buffered:
// push(const T&) leaves its source alone, push(T&&) takes it, emplace() constructs the element from exactly its arguments.
#include "hx.hpp"
#include <coro/queue.hpp>
#include <memory>
struct src { uint64_t v; bool taken = false; };
struct item
{
    hx::tracked t;
    int         via; // which constructor made the element
    item() : via(0) {}
    item(hx::counts& k, const src& s) : t(k, s.v), via(1) {}
    item(hx::counts& k, src&& s) : t(k, s.v), via(2) { s.taken = true; }
    item(hx::counts& k, uint64_t v, src&& s) : t(k, v + s.v), via(3) { s.taken = true; }
    item(hx::counts& k, uint64_t v, const src& s) : t(k, v + s.v), via(4) {}
};
static int      got;
static uint64_t val;
static int      via;
static hx::detached pop_(coro::queue<item>& q) { auto r = co_await q.pop(); SYM_ASSERT(r.has_value(), "no element"); val = r->t.value(); via = r->via; got++; }
static hx::detached pop_(coro::queue<std::unique_ptr<uint64_t>>& q) { auto r = co_await q.pop(); SYM_ASSERT(r.has_value() && *r, "no element"); val = **r; got++; }
template<typename F>
static hx::detached put_(F f, int& ok) { auto r = co_await f(); SYM_ASSERT(r == coro::queue_produce_result::produced, "refused"); ok++; }
template<typename Q>
static void take(Q& q, bool wait)
{
    if (wait) return;
    SYM_ASSERT(q.size() == 1, "the element is not buffered");
    pop_(q);
}
extern "C" void sym_main()
{
    auto base = sym_live_heap();
    {
        hx::counts k;
        bool       wait = sym::flip(), tryp = sym::flip();
        int        how = (int)sym_concretize(sym::range(0, 5, 3)), ok = 0;
        src        s{sym::u64()};
        const auto v = s.v;
        if (how < 5)
        {
            coro::queue<item> q;
            if (wait) pop_(q);
            item it(k, s);
            if (how == 0) put_([&] { return q.push(it); }, ok);
            else if (how == 1) put_([&] { return q.push(std::move(it)); }, ok);
            else if (how == 2) put_([&] { return q.emplace(k, s); }, ok);
            else if (how == 3) put_([&] { return q.emplace(k, std::move(s)); }, ok);
            else put_([&] { return q.emplace(k, v, std::move(s)); }, ok);
            if (how == 0) { it.t.check(); SYM_ASSERT(it.t.value() == v, "push of a const element changes it"); }
            if (tryp && !wait)
            {
                auto r = q.try_pop();
                SYM_ASSERT(r.has_value(), "no element");
                val = r->t.value(); via = r->via; got++;
            }
            else take(q, wait);
            SYM_ASSERT(ok == 1 && got == 1, "the element is not delivered");
            SYM_ASSERT(val == (how == 4 ? v + v : v), "another element is delivered");
            SYM_ASSERT(via == (how == 3 ? 2 : how == 4 ? 3 : 1), "the element is constructed from other arguments");
            SYM_ASSERT(s.taken == (how >= 3), "an argument is taken that was not given away");
        }
        else
        {
            coro::queue<std::unique_ptr<uint64_t>> q;
            if (wait) pop_(q);
            auto u = std::make_unique<uint64_t>(v);
            put_([&] { return q.push(std::move(u)); }, ok);
            take(q, wait);
            SYM_ASSERT(ok == 1 && got == 1 && val == v, "a move-only element is not delivered");
        }
        SYM_ASSERT(k.alive == 0, "elements leaked");
    }
    SYM_ASSERT(sym_live_heap() == base, "leaked memory");
    sym_reach(1);
}
