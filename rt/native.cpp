// Native replay runtime: runs the real code (compiled from the same bitcode, with ASan) under a recorded schedule and
// recorded inputs.  usage: prog TRACE ;  TRACE holds "sched ..." and "input tid value" lines.
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fstream>
#include <iostream>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
#include <signal.h>
extern "C" void sym_main();
extern "C" int __libc_single_threaded_dummy;
namespace
{
std::mutex mx;
std::condition_variable cvs[16];
int nthreads = 1, current = 0;
bool done_[16];
volatile int* waiton[16]; int waitkind[16]; bool stale[16]; // 0: none, 2: acquire (==0), 3: block (!=0)
std::deque<int> sched;
std::deque<uint64_t> inputs[16];
thread_local int me = 0;
long live = 0;
bool logging = false;
[[noreturn]] void out(int code, const char* what, const char* msg)
{
    printf("REPLAY %s: %s\n", what, msg);
    fflush(stdout);
    _exit(code);
}
int liveThreads() { int n = 0; for (int i = 0; i < nthreads; i++) n += !done_[i]; return n; }
bool enabled(int t)
{
    if (done_[t]) return false;
    if (waitkind[t] == 5) return !stale[t];
    if (waitkind[t] == 2) return *waiton[t] == 0;
    if (waitkind[t] == 3) return *waiton[t] != 0;
    return true;
}
// pick the next thread and hand over; returns when `me` holds the token (never for a finished thread)
void pass(bool finished)
{
    std::unique_lock<std::mutex> l(mx);
    if (sched.empty()) {
        bool any = false;
        for (int i = 0; i < nthreads; i++) any |= enabled(i);
        if (!any) out(45, "DEADLOCK", "no thread can make progress");
        out(50, "END", "the recorded schedule is exhausted without the failure");
    }
    int n = sched.front(); sched.pop_front();
    if (n >= nthreads || !enabled(n)) out(51, "DIVERGED", "scheduled thread is not enabled");
    for (int u = 0; u < 16; u++) if (u != n) stale[u] = false;
    current = n;
    cvs[n].notify_all();
    if (finished) return;
    while (current != me) cvs[me].wait(l);
}
}
extern "C" {
void sym_sched_point() { if (liveThreads() > 1) pass(false); }
void sym_yield() { pass(false); }
void sym_acquire(volatile int* w) { waiton[me] = w; waitkind[me] = 2; pass(false); waitkind[me] = 0; *w = me + 1; }
void sym_block(volatile int* w) { waiton[me] = w; waitkind[me] = 3; pass(false); waitkind[me] = 0; }
void sym_sleep() { waitkind[me] = 5; pass(false); waitkind[me] = 0; stale[me] = true; }
int sym_tid() { return me; }
int sym_thread_create(void (*f)(void*), void* a)
{
    int id;
    { std::unique_lock<std::mutex> l(mx); id = nthreads++; }
    std::thread([=] {
        me = id;
        { std::unique_lock<std::mutex> l(mx); while (current != me) cvs[me].wait(l); }
        f(a);
        done_[id] = true;
        pass(true);
    }).detach();
    return id;
}
uint64_t sym_input(int bits)
{
    if (inputs[me].empty()) out(51, "DIVERGED", "no recorded input left");
    uint64_t v = inputs[me].front(); inputs[me].pop_front();
    return v;
}
void sym_assume(int c) { if (!c) out(51, "DIVERGED", "assumption is false"); }
void sym_assert_msg(int c, const char* m) { if (!c) out(42, "ASSERT", m); }
void sym_fail_msg(const char* m) { out(42, "FAIL", m); }
void sym_reach(uint64_t id) { if (logging) { printf("LOG reach %lu\n", (unsigned long)id); } }
uint64_t sym_live_heap() { return live; }
void sym_log(uint64_t v) { if (logging) printf("LOG %d %lu\n", me, (unsigned long)v); }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_dump(const char* n, uint64_t v) { printf("DUMP %s %lu\n", n, (unsigned long)v); }
void* symn_new(size_t n) { live++; void* p = malloc(n ? n : 1); memset(p, 0xAA, n); return p; }
void* symn_new_nt(size_t n, const void*) { return symn_new(n); }
void* symn_new_al(size_t n, size_t al) { live++; void* p = aligned_alloc(al, (n + al - 1) / al * al); memset(p, 0xAA, n); return p; }
void symn_del(void* p) { if (p) live--; free(p); }
void symn_del2(void* p, size_t) { if (p) live--; free(p); }
void symn_del3(void* p, size_t, size_t) { if (p) live--; free(p); }
}
int main(int argc, char** argv)
{
    std::set_terminate([] { out(44, "TERMINATE", "std::terminate"); });
    signal(SIGALRM, [](int) { out(46, "TIMEOUT", "no progress"); });
    alarm(60);
    std::ifstream in(argv[1]);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string k; is >> k;
        if (k == "sched") { int x; while (is >> x) sched.push_back(x); }
        else if (k == "input") { int t; uint64_t v; is >> t >> v; inputs[t].push_back(v); }
        else if (k == "log") logging = true;
    }
    live = 0;
    sym_main();
    if (!sched.empty()) out(51, "DIVERGED", "sym_main returned before the schedule ended");
    out(0, "COMPLETED", "the run ended without a failure");
}
