// Models of the threading primitives the library is built on (POSIX mutex, libstdc++ condition variable, std::thread, clock).
// Shared by the engine and by the native replay, so a counterexample schedule means the same in both.
#include "sym.hpp"
#include <condition_variable>
#include <cstring>
#include <mutex>
#include <thread>
#include <pthread.h>
#include <cerrno>
#include <ctime>
extern "C" {
long long sym_clock_ns = 1000000000000ll;
int       sym_clock_auto = 0; // when set, each clock read may advance time by a symbolic amount (bits)
int       sym_done[16];
int       sym_ncpu = 2;
int       sym_spurious = 0;   // how many condition variable waits may end without a notification
static int held[16];          // mutexes a thread holds

int symrt_pthread_mutex_lock(pthread_mutex_t* m)
{
    int* w = reinterpret_cast<int*>(m);
    if (w[4] == PTHREAD_MUTEX_RECURSIVE && w[0] == sym_tid() + 1) { w[1]++; return 0; }
    sym_acquire(w);
    held[sym_tid()]++;
    return 0;
}
int symrt_pthread_mutex_trylock(pthread_mutex_t* m)
{
    volatile int* w = reinterpret_cast<int*>(m);
    sym_yield();
    if (w[4] == PTHREAD_MUTEX_RECURSIVE && w[0] == sym_tid() + 1) { w[1] = w[1] + 1; return 0; }
    if (w[0] != 0) return EBUSY;
    sym_acquire(w);
    held[sym_tid()]++;
    return 0;
}
int symrt_pthread_mutex_unlock(pthread_mutex_t* m)
{
    int* w = reinterpret_cast<int*>(m);
    SYM_ASSERT(w[0] == sym_tid() + 1, "an OS mutex is unlocked by a thread that does not hold it");
    if (w[1]) { w[1]--; return 0; }
    held[sym_tid()]--;
    w[0] = 0;
    return 0;
}
int symrt_pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
unsigned long symrt_pthread_self() { return (unsigned long)sym_tid() + 1; }
int symrt_sched_yield() { sym_yield(); return 0; }
// a thread's first sleeps let time pass; after that it runs again only when another one has run, and time stands still
// (so polling loops have finitely many states)
static int naps[16];
static int nap(const struct timespec* ts, int abs)
{
    long long t = ts->tv_sec * 1000000000ll + ts->tv_nsec + (abs ? 0 : sym_clock_ns);
    if (naps[sym_tid()] >= 2) { sym_sleep(); return 0; }
    naps[sym_tid()]++;
    if (sym_clock_ns < t) sym_clock_ns = t;
    sym_yield();
    return 0;
}
int symrt_nanosleep(const struct timespec* ts, struct timespec*) { return nap(ts, 0); }
int symrt_clock_nanosleep(int, int flags, const struct timespec* ts, struct timespec*) { return nap(ts, flags & 1); }
int symrt_usleep(unsigned us) { struct timespec ts = {us / 1000000, (long)(us % 1000000) * 1000}; return nap(&ts, 0); }
unsigned symrt_sleep(unsigned sec) { struct timespec ts = {sec, 0}; return nap(&ts, 0); }
int symrt_clock_gettime(int, struct timespec* ts) { ts->tv_sec = sym_clock_ns / 1000000000ll; ts->tv_nsec = sym_clock_ns % 1000000000ll; return 0; }
long symrt_time(long* p) { long t = sym_clock_ns / 1000000000ll; if (p) *p = t; return t; }
char* symrt_getenv(const char*) { return nullptr; }
int symrt_pthread_setname_np(unsigned long, const char*) { return 0; }
int symrt_pthread_equal(unsigned long a, unsigned long b) { return a == b; }
int symrt_pthread_mutex_init(pthread_mutex_t* m, const void*) { std::memset((void*)m, 0, sizeof(*m)); return 0; }
int symrt_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*)
{
    sym_yield();
    if (*reinterpret_cast<volatile int*>(m) != 0 && (sym_input(1) & 1)) return ETIMEDOUT;
    return symrt_pthread_mutex_lock(m);
}
int symrt_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* ts) { return symrt_pthread_mutex_timedlock(m, ts); }
int symrt_pthread_spin_init(int* w, int) { *w = 0; return 0; }
int symrt_pthread_spin_destroy(int*) { return 0; }
int symrt_pthread_spin_lock(int* w) { sym_acquire(w); return 0; }
int symrt_pthread_spin_trylock(int* w) { sym_yield(); if (*(volatile int*)w) return EBUSY; sym_acquire(w); return 0; }
int symrt_pthread_spin_unlock(int* w) { SYM_ASSERT(*w == sym_tid() + 1, "a spin lock is released by a thread that does not hold it"); *(volatile int*)w = 0; return 0; }
// once: 2 = done; the lock words are shared by address
int symrt_pthread_once(int* o, void (*f)())
{
    static int locks[16];
    volatile int* w = o;
    int* l = &locks[((unsigned long)o >> 2) & 15];
    if (*w == 2) return 0;
    sym_acquire(l);
    if (*w != 2)
    {
        try { f(); } catch (...) { *(volatile int*)l = 0; throw; }
        *w = 2;
    }
    *(volatile int*)l = 0;
    return 0;
}
// readers-writer lock: w[0] keeps new readers out (a writer holds it), w[1] is taken by the readers as a group or by a writer
int symrt_pthread_rwlock_init(int* w, const void*) { std::memset((void*)w, 0, sizeof(pthread_rwlock_t)); return 0; }
int symrt_pthread_rwlock_destroy(int*) { return 0; }
int symrt_pthread_rwlock_rdlock(int* w) { sym_acquire(w); w[0] = 0; if (w[2]++ == 0) w[1] = 1; return 0; }
int symrt_pthread_rwlock_wrlock(int* w) { sym_acquire(w + 1); w[0] = 1; w[3] = 1; return 0; }
int symrt_pthread_rwlock_tryrdlock(int* w) { sym_yield(); return ((volatile int*)w)[0] ? EBUSY : symrt_pthread_rwlock_rdlock(w); }
int symrt_pthread_rwlock_trywrlock(int* w) { sym_yield(); return ((volatile int*)w)[1] ? EBUSY : symrt_pthread_rwlock_wrlock(w); }
int symrt_pthread_rwlock_clockrdlock(int* w, clockid_t, const struct timespec*) { sym_yield(); return ((volatile int*)w)[0] && (sym_input(1) & 1) ? ETIMEDOUT : symrt_pthread_rwlock_rdlock(w); }
int symrt_pthread_rwlock_clockwrlock(int* w, clockid_t, const struct timespec*) { sym_yield(); return ((volatile int*)w)[1] && (sym_input(1) & 1) ? ETIMEDOUT : symrt_pthread_rwlock_wrlock(w); }
int symrt_pthread_rwlock_unlock(int* w)
{
    SYM_ASSERT(w[3] || w[2] > 0, "a readers-writer lock is released that is not held");
    if (w[3]) { w[3] = 0; w[1] = 0; ((volatile int*)w)[0] = 0; }
    else if (--w[2] == 0) ((volatile int*)w)[1] = 0;
    return 0;
}
// futex: what std::atomic::wait / notify, std::latch, std::counting_semaphore use
struct symrt_fwaiter { volatile int woken; const int* addr; symrt_fwaiter* next; };
static symrt_fwaiter* fwaiters;
static long futex(long nr, const int* addr, int op, int val, long long deadline)
{
    if (nr != 202) sym_fail_msg("model limit: system call");
    if ((op & 127) == 0 || (op & 127) == 9) // FUTEX_WAIT, FUTEX_WAIT_BITSET (with a deadline)
    {
        if (*(volatile const int*)addr != val) { errno = EAGAIN; return -1; }
        symrt_fwaiter w;
        w.woken = 0; w.addr = addr; w.next = nullptr;
        symrt_fwaiter** p = &fwaiters;
        while (*p) p = &(*p)->next;
        *p = &w;
        if ((op & 127) == 0) { sym_block(&w.woken); return 0; }
        sym_yield();
        if (w.woken) return 0;
        for (p = &fwaiters; *p; p = &(*p)->next)
            if (*p == &w) { *p = w.next; break; }
        if (sym_clock_ns < deadline) sym_clock_ns = deadline;
        errno = ETIMEDOUT;
        return -1;
    }
    int n = 0;
    for (symrt_fwaiter** p = &fwaiters; *p && n < val;)
        if ((*p)->addr == addr) { symrt_fwaiter* w = *p; *p = w->next; w->woken = 1; n++; }
        else p = &(*p)->next;
    return n;
}
long symrt_syscall(long nr, const int* addr, int op, int val, const struct timespec* ts)
{
    return futex(nr, addr, op, val, (op & 127) == 9 && ts ? ts->tv_sec * 1000000000ll + ts->tv_nsec : 0);
}
bool symrt__ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void*, unsigned* a, unsigned v, bool timed, long sec, long ns)
{
    return futex(202, (const int*)a, timed ? 9 : 0, (int)v, sec * 1000000000ll + ns) == 0 || errno != ETIMEDOUT;
}
bool symrt__ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void*, unsigned* a, unsigned v, bool timed, long sec, long ns)
{
    return futex(202, (const int*)a, timed ? 9 : 0, (int)v, sec * 1000000000ll + ns) == 0 || errno != ETIMEDOUT;
}
void symrt__ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned* a) { futex(202, (const int*)a, 1, 0x7fffffff, 0); }
// atomics larger than the machine's
void symrt___atomic_load(size_t n, const void* p, void* r, int) { sym_sched_point(); std::memcpy(r, p, n); }
void symrt___atomic_store(size_t n, void* p, const void* v, int) { sym_sched_point(); std::memcpy(p, v, n); }
void symrt___atomic_exchange(size_t n, void* p, const void* v, void* r, int) { sym_sched_point(); std::memcpy(r, p, n); std::memcpy(p, v, n); }
bool symrt___atomic_compare_exchange(size_t n, void* p, void* e, const void* v, int, int)
{
    sym_sched_point();
    bool eq = true;
    for (size_t i = 0; i < n; i++) eq &= ((const volatile char*)p)[i] == ((const volatile char*)e)[i];
    if (eq) std::memcpy(p, v, n);
    else std::memcpy(e, p, n);
    return eq;
}

// ---- condition variables: a list of waiter nodes living on the waiting threads' stacks
struct symrt_waiter { volatile int signaled; int pad; symrt_waiter* next; };
struct symrt_cv { symrt_waiter* head; };
static void cv_push(symrt_cv* c, symrt_waiter* w)
{
    w->signaled = 0; w->next = nullptr;
    symrt_waiter** p = &c->head;
    while (*p) p = &(*p)->next;
    *p = w;
}
static void cv_remove(symrt_cv* c, symrt_waiter* w)
{
    for (symrt_waiter** p = &c->head; *p; p = &(*p)->next)
        if (*p == w) { *p = w->next; return; }
}
static void cv_wait(symrt_cv* c, pthread_mutex_t* m)
{
    symrt_waiter w;
    cv_push(c, &w);
    symrt_pthread_mutex_unlock(m);
    if (sym_spurious > 0 && (sym_input(1) & 1))
    {
        sym_spurious--;
        sym_yield();
        if (!w.signaled) cv_remove(c, &w);
    }
    else sym_block(&w.signaled);
    symrt_pthread_mutex_lock(m);
}
static void advance(const struct timespec* ts)
{
    long long t = ts->tv_sec * 1000000000ll + ts->tv_nsec;
    if (sym_clock_ns < t) sym_clock_ns = t;
}
// true: signalled; false: timed out (the timeout may fire at any point; time has then come that far)
static bool cv_wait_timed(symrt_cv* c, pthread_mutex_t* m, const struct timespec* ts)
{
    symrt_waiter w;
    cv_push(c, &w);
    symrt_pthread_mutex_unlock(m);
    sym_yield();
    bool r = w.signaled != 0;
    if (!r) { cv_remove(c, &w); advance(ts); }
    symrt_pthread_mutex_lock(m);
    return r;
}
static void cv_notify_one(symrt_cv* c)
{
    if (!held[sym_tid()]) sym_sched_point(); // without a lock anything may have happened since, even to the condition variable
    int n = 0;
    for (symrt_waiter* p = c->head; p; p = p->next) n++;
    if (n == 0) return;
    uint64_t k = 0;
    if (n > 1) { k = sym_input(2); sym_assume(k < (uint64_t)n); }
    symrt_waiter** p = &c->head;
    for (uint64_t i = 0; i < k; i++) p = &(*p)->next;
    symrt_waiter* w = *p;
    *p = w->next;
    w->signaled = 1;
}
static void cv_notify_all(symrt_cv* c)
{
    if (!held[sym_tid()]) sym_sched_point();
    while (symrt_waiter* w = c->head) { c->head = w->next; w->signaled = 1; }
}
void symrt__ZNSt18condition_variableC1Ev(symrt_cv* c) { std::memset((void*)c, 0, sizeof(pthread_cond_t)); }
void symrt__ZNSt18condition_variableC2Ev(symrt_cv* c) { std::memset((void*)c, 0, sizeof(pthread_cond_t)); }
void symrt__ZNSt18condition_variableD1Ev(symrt_cv*) {}
void symrt__ZNSt18condition_variableD2Ev(symrt_cv*) {}
void symrt__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(symrt_cv* c, std::unique_lock<std::mutex>& l) { cv_wait(c, l.mutex()->native_handle()); }
void symrt__ZNSt18condition_variable10notify_oneEv(symrt_cv* c) { cv_notify_one(c); }
void symrt__ZNSt18condition_variable10notify_allEv(symrt_cv* c) { cv_notify_all(c); }
int symrt_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { cv_wait((symrt_cv*)c, m); return 0; }
int symrt_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) { return cv_wait_timed((symrt_cv*)c, m, ts) ? 0 : ETIMEDOUT; }
int symrt_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return cv_wait_timed((symrt_cv*)c, m, ts) ? 0 : ETIMEDOUT; }
int symrt_pthread_cond_signal(pthread_cond_t* c) { cv_notify_one((symrt_cv*)c); return 0; }
int symrt_pthread_cond_broadcast(pthread_cond_t* c) { cv_notify_all((symrt_cv*)c); return 0; }

// ---- std::thread
struct ThreadState { virtual ~ThreadState(); virtual void run() = 0; }; // same vtable layout as std::thread::_State
static void thread_main(void* p)
{
    auto* st = static_cast<ThreadState*>(p);
    st->run();
    delete st;
    sym_done[sym_tid()] = 1;
}
void symrt__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(unsigned long* self, ThreadState** st, void (*)())
{
    ThreadState* s = *st;
    *st = nullptr;
    *self = (unsigned long)sym_thread_create(&thread_main, s) + 1;
}
void symrt__ZNSt6thread4joinEv(unsigned long* self)
{
    sym_block((volatile int*)&sym_done[*self - 1]);
    *self = 0;
}
void symrt__ZNSt6thread6detachEv(unsigned long* self) { *self = 0; }
unsigned symrt__ZNSt6thread20hardware_concurrencyEv() { return sym_ncpu; }

// ---- clock
long long symrt__ZNSt6chrono3_V212steady_clock3nowEv()
{
    if (sym_clock_auto) sym_clock_ns += (long long)sym_input(sym_clock_auto);
    return sym_clock_ns;
}
long long symrt__ZNSt6chrono3_V212system_clock3nowEv() { return sym_clock_ns; }
}
