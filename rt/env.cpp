#include "env.hpp"
#include <atomic>
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <csignal>
#include <unistd.h>
namespace env
{
kernel K = {.fdtab = {1, 2, 3}, .of = {{.kind = F_FOREIGN, .refs = 1}, {.kind = F_FOREIGN, .refs = 1}, {.kind = F_FOREIGN, .refs = 1}}, .nextfd = 3};
static void sched() { sym_sched_point(); } // other threads may run before a system call
ofd* get(int fd) { return fd >= 0 && fd < MAXFD && K.fdtab[fd] ? &K.of[K.fdtab[fd] - 1] : nullptr; }
bool failing()
{
    if (K.fail_at && --K.fail_at == 0)
    {
        K.failed++;
        errno = EMFILE;
        return true;
    }
    return false;
}
static int new_of(int kind)
{
    for (int i = 3; i < MAXFD; i++)
        if (K.of[i].refs == 0)
        {
            std::memset((void*)&K.of[i], 0, sizeof(ofd));
            K.of[i].kind = kind;
            return i;
        }
    sym_fail_msg("model limit: open files");
    return 0;
}
static int new_fd(int of)
{
    int fd = K.nextfd;
    if (K.reuse)
        for (fd = 3; fd < MAXFD && K.fdtab[fd]; fd++) {}
    else
        K.nextfd++;
    if (fd >= MAXFD) sym_fail_msg("model limit: descriptors");
    K.fdtab[fd] = of + 1;
    K.of[of].refs++;
    K.opened++;
    return fd;
}
static unsigned mask(const ofd& o)
{
    switch (o.kind)
    {
        case F_PIPE_R: return (o.count ? EPOLLIN : 0u) | (K.of[o.peer].refs && K.of[o.peer].kind == F_PIPE_W ? 0u : EPOLLHUP);
        case F_PIPE_W: return EPOLLOUT;
        case F_EVENT: return EPOLLOUT | (o.count ? EPOLLIN : 0u);
        case F_TIMER: return o.ticks ? EPOLLIN : 0u;
        case F_SOCK:
        case F_USER: return o.ready;
        default: return 0;
    }
}
static void changed(int of) // new activity: a wake-up for every epoll set that watches it
{
    for (auto& i : K.it)
        if (i.used && i.of == of)
        {
            i.edge            = 1;
            K.of[i.ep].kick = 1;
        }
}
static void fire(long long now)
{
    for (int i = 0; i < MAXFD; i++)
        if (K.of[i].kind == F_TIMER && K.of[i].refs && K.of[i].armed && K.of[i].deadline <= now)
        {
            K.of[i].armed = 0;
            K.of[i].ticks = 1;
            changed(i);
        }
}
static int collect(int ep, epoll_event* ev, int max)
{
    fire(sym_clock_ns);
    int ready[MAXIT], n = 0;
    for (int i = 0; i < MAXIT; i++)
    {
        auto& t = K.it[i];
        if (!t.used || t.ep != ep || !t.enabled) continue;
        if ((t.events & EPOLLET) && !t.edge) continue;
        if (mask(K.of[t.of]) & (t.events | EPOLLERR | EPOLLHUP)) ready[n++] = i;
    }
    if (n > max) n = max;
    int r = 0;
    if (n > 1 && K.shuffle) r = (int)sym_concretize(sym::range(0, n - 1, 4));
    for (int k = 0; k < n; k++)
    {
        auto& t        = K.it[ready[(k + r) % n]];
        ev[k].events   = mask(K.of[t.of]) & (t.events | EPOLLERR | EPOLLHUP);
        ev[k].data.u64 = t.data;
        t.edge         = 0;
        if (t.events & EPOLLONESHOT) t.enabled = 0;
    }
    return n;
}
int user_fd() { return new_fd(new_of(F_USER)); }
void set_ready(int fd, unsigned m)
{
    auto* o   = get(fd);
    unsigned old = o->ready;
    o->ready  = m;
    if (m & ~old) changed((int)(o - K.of));
}
int  open_fds() { return K.opened - K.closed; }
bool is_open(int fd) { return get(fd) != nullptr; }
int  watched(int fd)
{
    int n = 0;
    for (auto& i : K.it) n += i.used && i.fd == fd && i.enabled;
    return n;
}
int entries()
{
    int n = 0;
    for (auto& i : K.it) n += i.used;
    return n;
}
} // namespace env
using namespace env;
extern "C" {
ssize_t symrt_write(int fd, const void* b, size_t n);
ssize_t symrt_read(int fd, void* b, size_t n);
int symrt_close(int fd)
{
    sched();
    if (fd < 0) { errno = EBADF; return -1; }
    ofd* o = get(fd);
    if (o && o->kind == F_FOREIGN) sym_fail_msg("close() of a descriptor the library does not own");
    if (!o) sym_fail_msg("close() of a descriptor that is not open");
    K.fdtab[fd] = 0;
    K.closed++;
    if (--o->refs == 0)
    {
        int of = (int)(o - K.of);
        for (auto& i : K.it)
            if (i.used && (i.of == of || i.ep == of)) i.used = 0;
        if (o->kind == F_PIPE_W) changed(o->peer);
    }
    if (K.close_err > 0 && (sym_input(1) & 1)) { K.close_err--; errno = EINTR; return -1; }
    return 0;
}
int symrt_dup(int fd)
{
    sched();
    if (!get(fd)) { errno = EBADF; return -1; }
    if (failing()) return -1;
    return new_fd(K.fdtab[fd] - 1);
}
int symrt_pipe2(int* fds, int flags)
{
    sched();
    if (failing()) return -1;
    int r = new_of(F_PIPE_R);
    fds[0] = new_fd(r);
    int w = new_of(F_PIPE_W);
    fds[1] = new_fd(w);
    K.of[r].peer = w; K.of[w].peer = r;
    K.of[r].flags = K.of[w].flags = flags;
    return 0;
}
int symrt_pipe(int* fds) { return symrt_pipe2(fds, 0); }
int symrt_fcntl(int fd, int cmd, long arg)
{
    ofd* o = get(fd);
    if (!o) { errno = EBADF; return -1; }
    if (cmd == F_GETFL) { if (failing()) return -1; return o->flags; }
    if (cmd == F_SETFL) { if (failing()) return -1; o->flags = (int)arg; return 0; }
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return symrt_dup(fd);
    if (cmd == F_GETFD || cmd == F_SETFD) return 0;
    return 0;
}
int symrt_ioctl(int fd, unsigned long req, int* arg)
{
    ofd* o = get(fd);
    if (!o) { errno = EBADF; return -1; }
    if (req != FIONBIO) { errno = ENOTTY; return -1; }
    if (failing()) return -1;
    o->flags = *arg ? o->flags | O_NONBLOCK : o->flags & ~O_NONBLOCK;
    return 0;
}
int symrt_eventfd(unsigned init, int flags)
{
    sched();
    if (failing()) return -1;
    int o = new_of(F_EVENT);
    K.of[o].count = (int)init;
    K.of[o].flags = flags & EFD_NONBLOCK ? O_NONBLOCK : 0;
    return new_fd(o);
}
int symrt_eventfd_write(int fd, uint64_t v) { return symrt_write(fd, &v, 8) == 8 ? 0 : -1; }
int symrt_eventfd_read(int fd, uint64_t* v) { return symrt_read(fd, v, 8) == 8 ? 0 : -1; }
ssize_t symrt_write(int fd, const void* b, size_t n)
{
    sched();
    ofd* o = get(fd);
    if (!o || o->kind == F_FOREIGN) { errno = EBADF; return -1; }
    if (o->kind == F_EVENT)
    {
        if (n < 8) { errno = EINVAL; return -1; }
        o->count += (int)*(const uint64_t*)b;
        changed((int)(o - K.of));
        return 8;
    }
    if (o->kind != F_PIPE_W) { errno = EINVAL; return -1; }
    for (size_t i = 0; i < n; i++) (void)((const volatile char*)b)[i];
    K.of[o->peer].count += (int)n;
    changed(o->peer);
    return (ssize_t)n;
}
ssize_t symrt_read(int fd, void* b, size_t n)
{
    sched();
    ofd* o = get(fd);
    if (!o || o->kind == F_FOREIGN) { errno = EBADF; return -1; }
    if (o->kind == F_TIMER)
    {
        if (!o->ticks) { errno = EAGAIN; return -1; }
        o->ticks = 0;
        *(uint64_t*)b = 1;
        return 8;
    }
    if (o->kind == F_EVENT)
    {
        if (n < 8) { errno = EINVAL; return -1; }
        if (o->count == 0)
        {
            if (!(o->flags & O_NONBLOCK)) sym_fail_msg("read() blocks on an eventfd that is not set");
            errno = EAGAIN;
            return -1;
        }
        *(uint64_t*)b = (uint64_t)o->count;
        o->count = 0;
        return 8;
    }
    if (o->kind != F_PIPE_R) { errno = EINVAL; return -1; }
    if (o->count == 0)
    {
        if (!K.of[o->peer].refs) return 0;
        if (!(o->flags & O_NONBLOCK)) sym_fail_msg("read() blocks on an empty pipe");
        errno = EAGAIN;
        return -1;
    }
    size_t k = (size_t)o->count < n ? (size_t)o->count : n;
    std::memset(b, 1, k);
    o->count -= (int)k;
    return (ssize_t)k;
}
int symrt_epoll_create1(int)
{
    sched();
    if (failing()) return -1;
    return new_fd(new_of(F_EPOLL));
}
int symrt_epoll_create(int) { return symrt_epoll_create1(0); }
int symrt_epoll_ctl(int ep, int op, int fd, epoll_event* ev)
{
    sched();
    ofd *e = get(ep), *o = get(fd);
    if (!e || !o) { errno = EBADF; return -1; }
    int ei = (int)(e - K.of), oi = (int)(o - K.of);
    item* f = nullptr;
    for (auto& i : K.it)
        if (i.used && i.ep == ei && i.fd == fd && i.of == oi) f = &i;
    if (op == EPOLL_CTL_DEL)
    {
        if (!f) { errno = ENOENT; return -1; }
        f->used = 0;
        return 0;
    }
    if (op == EPOLL_CTL_ADD)
    {
        if (f) { errno = EEXIST; return -1; }
        if (failing()) return -1;
        for (auto& i : K.it)
            if (!i.used) { f = &i; break; }
        if (!f) sym_fail_msg("model limit: epoll entries");
        f->used = 1; f->ep = ei; f->fd = fd; f->of = oi;
    }
    else if (!f) { errno = ENOENT; return -1; }
    f->events  = ev->events;
    f->data    = ev->data.u64;
    f->enabled = 1;
    f->edge    = mask(*o) & (f->events | EPOLLERR | EPOLLHUP) ? 1 : 0;
    if (f->edge) e->kick = 1;
    return 0;
}
int symrt_epoll_wait(int ep, epoll_event* ev, int max, int timeout)
{
    sym_yield();
    ofd* e = get(ep);
    if (!e || e->kind != F_EPOLL) { errno = EBADF; return -1; }
    int ei = (int)(e - K.of);
    while (true)
    {
        int n = collect(ei, ev, max);
        if (n || timeout == 0) return n;
        long long dl = 0;
        bool      have = false;
        for (auto& i : K.it)
            if (i.used && i.ep == ei && i.enabled && K.of[i.of].kind == F_TIMER && K.of[i.of].armed)
                if (!have || K.of[i.of].deadline < dl) { have = true; dl = K.of[i.of].deadline; }
        if (K.strict && timeout > 0 && (!have || dl > sym_clock_ns + timeout * 1000000ll))
        {
            sym_clock_ns += timeout * 1000000ll;
            return 0;
        }
        if (have)
        {
            if (K.jitter) dl += (long long)sym_input(K.jitter);
            if (sym_clock_ns < dl) sym_clock_ns = dl;
            continue;
        }
        K.waits++;
        if (K.heartbeat)
        {
            sym_sleep();
            return collect(ei, ev, max);
        }
        e->kick = 0;
        sym_block(&e->kick);
    }
}
int symrt_epoll_pwait(int ep, epoll_event* ev, int max, int timeout, const sigset_t*) { return symrt_epoll_wait(ep, ev, max, timeout); }
int symrt_timerfd_create(int, int flags)
{
    sched();
    if (failing()) return -1;
    int o = new_of(F_TIMER);
    K.of[o].flags = flags;
    return new_fd(o);
}
int symrt_timerfd_settime(int fd, int flags, const itimerspec* n, itimerspec*)
{
    sched();
    ofd* o = get(fd);
    if (!o || o->kind != F_TIMER) { errno = o ? EINVAL : EBADF; return -1; }
    if (n->it_value.tv_sec < 0 || n->it_value.tv_nsec < 0 || n->it_value.tv_nsec >= 1000000000) { errno = EINVAL; return -1; }
    o->ticks = 0;
    if (n->it_value.tv_sec == 0 && n->it_value.tv_nsec == 0) { o->armed = 0; return 0; }
    o->armed    = 1;
    o->deadline = (flags & TFD_TIMER_ABSTIME ? 0 : sym_clock_ns) + n->it_value.tv_sec * 1000000000ll + n->it_value.tv_nsec;
    for (auto& i : K.it)
        if (i.used && i.of == (int)(o - K.of)) K.of[i.ep].kick = 1;
    return 0;
}
int symrt_socket(int domain, int type, int)
{
    sched();
    if (failing()) return -1;
    int o = new_of(F_SOCK);
    K.of[o].domain = domain;
    K.of[o].type = type & 15;
    if (type & SOCK_NONBLOCK) K.of[o].flags |= O_NONBLOCK;
    return new_fd(o);
}
int symrt_setsockopt(int fd, int lvl, int opt, const void* v, socklen_t n)
{
    ofd* o = get(fd);
    if (!o) { errno = EBADF; return -1; }
    if (failing()) return -1;
    if (lvl == SOL_SOCKET && n == sizeof(int) && *(const int*)v != 0) o->reuse |= opt == SO_REUSEADDR ? 1 : opt == SO_REUSEPORT ? 2 : 0;
    return 0;
}
int symrt_bind(int fd, const sockaddr* a, socklen_t n)
{
    ofd* o = get(fd);
    if (!o) { errno = EBADF; return -1; }
    for (socklen_t i = 0; i < n; i++) (void)((const volatile char*)a)[i];
    if (failing()) return -1;
    if (n <= sizeof o->addr) std::memcpy(o->addr, a, n);
    o->bound = (int)n;
    return 0;
}
int symrt_listen(int fd, int backlog)
{
    ofd* o = get(fd);
    if (!o) { errno = EBADF; return -1; }
    if (failing()) return -1;
    o->listening = 1;
    o->backlog = backlog;
    return 0;
}
int symrt_shutdown(int fd, int how)
{
    sched();
    ofd* o = get(fd);
    if (!o) { errno = EBADF; return -1; }
    o->how = how + 1;
    o->ready |= EPOLLIN | EPOLLHUP | EPOLLRDHUP;
    changed((int)(o - K.of));
    return 0;
}
}
