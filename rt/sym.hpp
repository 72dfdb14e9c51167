// Harness API.  Every sym_* primitive is implemented twice: by the symbolic engine (engine/intrinsics.inc) and by the
// native replay runtime (rt/native.cpp).
#pragma once
#include <cstdint>
#include <cstddef>
#include <utility>
#include <memory>
extern "C" {
uint64_t sym_input(int bits);                 // a fresh symbolic value
void     sym_assume(int c);
void     sym_assert_msg(int c, const char* m);
void     sym_fail_msg(const char* m);
void     sym_reach(uint64_t id);              // vacuity witness
int      sym_tid();
void     sym_yield();                         // a scheduling (and merge) point
void     sym_sleep();                         // poll loop: runs again only after another thread has run
void     sym_sched_point();                   // another thread may run here (no merge point)
void     sym_acquire(volatile int* w);        // wait until *w == 0, then *w = tid+1
void     sym_block(volatile int* w);          // wait until *w != 0
int      sym_thread_create(void (*f)(void*), void* a);
uint64_t sym_live_heap();                     // live heap allocations
void     sym_log(uint64_t v);
uint64_t sym_concretize(uint64_t v);
void     sym_dump(const char* n, uint64_t v);
extern int sym_spurious;                      // how many condition variable waits may wake up by themselves
extern long long sym_clock_ns;                // virtual steady clock
}
#define SYM_ASSERT(c, m) sym_assert_msg((c) ? 1 : 0, m)
namespace sym
{
inline uint64_t u64() { return sym_input(64); }
inline bool     flip() { return sym_input(1) & 1; }
// a value in [lo, hi]
inline uint64_t range(uint64_t lo, uint64_t hi, int bits = 8)
{
    uint64_t v = sym_input(bits);
    sym_assume((v >= lo) & (v <= hi));
    return v;
}
struct flag
{
    volatile int v{0};
    void set() { v = 1; }
    bool get() const { return v != 0; }
    void wait() { sym_block(&v); }
};
template<typename F>
struct thread
{
    F    f;
    flag done;
    explicit thread(F&& x) : f(std::move(x)) { sym_thread_create(&run, this); }
    thread(const thread&) = delete;
    static void run(void* p)
    {
        auto* t = static_cast<thread*>(p);
        t->f();
        t->done.set();
    }
    void join() { done.wait(); }
};
template<typename F> thread(F&&) -> thread<std::decay_t<F>>;
} // namespace sym
