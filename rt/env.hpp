// The virtual kernel (rt/env.cpp): descriptors, pipes, epoll, timerfd, sockets.  Shared by the engine and the native replay.
#pragma once
#include "sym.hpp"
#include <sys/epoll.h>
namespace env
{
enum kind { F_NONE, F_FOREIGN, F_PIPE_R, F_PIPE_W, F_EPOLL, F_TIMER, F_SOCK, F_USER, F_EVENT };
constexpr int MAXFD = 40, MAXIT = 16;
struct ofd // an open file description
{
    int       kind, refs, flags, peer, count, armed, ticks;
    volatile int kick;
    unsigned  ready;
    long long deadline;
    int       domain, type, bound, listening, pending, soerr, how, backlog, reuse;
    char      addr[28]; // what it is bound to
};
struct item // an entry of an epoll set
{
    int      used, ep, fd, of;
    unsigned events;
    uint64_t data;
    int      enabled, edge;
};
struct kernel
{
    int  fdtab[MAXFD]; // fd -> ofd index + 1
    ofd  of[MAXFD];
    item it[MAXIT];
    int  nextfd;
    int  reuse;     // give out the lowest free descriptor, as a real kernel does (otherwise a number is used once only)
    int  opened, closed;
    int  fail_at;   // the fail_at-th call that can fail fails (0: none)
    int  failed;
    int  close_err; // that many close() may report an error (the descriptor is closed all the same)
    int  heartbeat; // 1: epoll_wait's own timeout fires after any other thread has run; 0: it never fires
    int  strict;    // time passes only as far as epoll_wait's timeout
    int  jitter;    // the wait for a timer may last longer, by a value of that many bits
    int  shuffle;   // ready events come in any rotation of the registration order
    int  waits;     // number of epoll_wait calls that found nothing to do and no timer
};
extern kernel K;
int  user_fd();                    // a descriptor of the user of the library, never ready
void set_ready(int fd, unsigned m); // EPOLLIN | EPOLLOUT | ...
int  open_fds();                   // descriptors open now
bool is_open(int fd);
int  watched(int fd);              // number of enabled epoll entries of fd
int  entries();                    // number of epoll entries
ofd* get(int fd);
bool failing();
} // namespace env
