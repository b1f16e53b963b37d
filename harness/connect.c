/* timed and plain connections over every sequence of system call outcomes */
#include "vp.h"
#include <stdio.h>
#include <time.h>
#include <fcntl.h>
#include <poll.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/select.h>
#include <u/libu.h>
#include <toolbox/net.h>

typedef struct { long s, u; } when;     /* seconds and microseconds, normalized */
static int later (when a, when b) { return (a.s > b.s) | ((a.s == b.s) & (a.u > b.u)); }
static when sum (when a, when b)
{
    when c; long k; c.s = a.s + b.s; c.u = a.u + b.u;
    k = c.u >= 1000000; c.u -= 1000000 & -k; c.s += k;
    return c;
}
static when moment (void)
{
    when t;
    t.s = (long) (vp_uint() & SMASK);
#ifdef FINE
    t.u = (long) (vp_uint() & 0xfffff);
    VP_ASSUME(t.u < 1000000);
#else
    t.u = (long) (vp_uint() & 3) * 333333;
#endif
    return t;
}
static const when MS = { 0, 1000 };     /* what waiting in milliseconds may add or take */

static when now, deadline; static int timed, sd, flags, restore_bad, ncalls, fault, done;
static int progress, established, cause, intr, peek, waits, connects;
static struct sockaddr sa;

/* time passes, up to 'to' if given */
static void pass (const when *to)
{
    when t;
    t = moment();
    VP_ASSUME(!later(now, t));
    if (to) VP_ASSUME(!later(t, *to));
    now = t;
}
/* the calls that should not fail do, once */
static int fails (int e) { if (ncalls++ == fault) { errno = e; return 1; } return 0; }
static int err (int e) { errno = e; if (!cause) cause = e; return -1; }
static int some_errno (void) { int e = vp_int(); VP_ASSUME(e > 0 && e < 134 && e != EINTR && e != EINPROGRESS && e != EAGAIN && e != EALREADY && e != EISCONN); return e; }

int vp_fcntl (int fd, int cmd, ...)
{
    va_list ap; int v;
    VP_ASSERT(fd == sd, "the descriptor given is the one used");
    va_start(ap, cmd); v = cmd == F_SETFL ? va_arg(ap, int) : 0; va_end(ap);
    if (fails(EBADF)) { if (connects) restore_bad = 1; else cause = EBADF; return -1; }
    if (cmd == F_GETFL) return flags;
    VP_ASSERT(cmd == F_SETFL, "no other property of the descriptor is changed");
    flags = v;
    return 0;
}
int vp_gettimeofday (struct timeval *tv, void *tz)
{
    (void) tz;
    if (fails(EFAULT)) return err(EFAULT);
    tv->tv_sec = now.s; tv->tv_usec = now.u;
    return 0;
}
int vp_clock_gettime (clockid_t id, struct timespec *ts)
{
    (void) id;
    if (fails(EINVAL)) return err(EINVAL);
    ts->tv_sec = now.s; ts->tv_nsec = now.u * 1000;
    return 0;
}
time_t vp_time (time_t *t) { if (t) *t = now.s; return now.s; }

int vp_connect (int fd, const struct sockaddr *a, socklen_t l)
{
    VP_ASSERT(fd == sd && a == &sa && l == sizeof sa, "the connection asked for is made");
    VP_ASSERT(!timed || (flags & O_NONBLOCK), "a timed attempt does not block");
    ++connects;
    if (established) return err(EISCONN);
    if (progress) { errno = EALREADY; return -1; }
    if (!(flags & O_NONBLOCK)) pass(NULL);
    switch (vp_pick(0, 2))
    {
        case 0: established = 1; return 0;
        case 1: progress = 1; errno = (flags & O_NONBLOCK) && vp_bool() ? EINPROGRESS : EINTR; return -1;
        default: return err(some_errno());
    }
}
/* the common part of select() and poll(): 1 ready, 0 time-out, -1 error */
static int await (int limited, when w)
{
    when end = sum(now, w);
    VP_ASSERT(progress && !established, "what is waited for is going on");
    VP_ASSERT(limited == timed, "only timed attempts are limited");
    if (limited) VP_ASSERT(!later(end, sum(deadline, MS)), "no wait exceeds the limit");
    VP_ASSERT(++waits < 8, "waits go on after interruptions only");
    switch (vp_pick(limited ? 0 : 1, intr < INTR ? 3 : 2))
    {
        case 0:
            now = end;
            VP_ASSERT(!later(deadline, sum(end, MS)), "the time granted is waited out");
            if (!cause) cause = ETIMEDOUT;
            return 0;
        case 1:
            pass(limited ? &end : NULL);
            peek = vp_pick(0, 1) ? some_errno() : 0;
            if (!peek) established = 1;
            return 1;
        case 2:
            return err(some_errno());
        default:
            ++intr;
            pass(limited ? &end : NULL);
            errno = EINTR;
            return -1;
    }
}
int vp_select (int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    when lim = { 0, 0 }; int rc;
    VP_ASSERT(sd < FD_SETSIZE, "only descriptors that fit are selected");
    VP_ASSERT(n > sd && w != NULL && FD_ISSET(sd, w) && !(r && FD_ISSET(sd, r)), "the descriptor's becoming writable is waited for");
    (void) e;
    if (tv)
    {
        if (tv->tv_sec < 0 || tv->tv_usec < 0) return err(EINVAL);
        VP_ASSERT(tv->tv_usec < 1000000, "intervals are well formed");
        lim.s = tv->tv_sec; lim.u = tv->tv_usec;
    }
    rc = await(tv != NULL, lim);
    if (rc == 0) FD_ZERO(w);
    /* as Linux does: what is left of the interval, some of it anyway */
    if (tv && rc == -1 && vp_bool()) tv->tv_sec = 0, tv->tv_usec = 0;
    return rc;
}
int vp_poll (struct pollfd *p, nfds_t n, int ms)
{
    when lim = { 0, 0 }; int rc;
    VP_ASSERT(n == 1 && p->fd == sd && (p->events & POLLOUT), "the descriptor's becoming writable is waited for");
    if (ms >= 0) { lim.s = ms / 1000; lim.u = (ms % 1000) * 1000L; }
    rc = await(ms >= 0, lim);
    p->revents = rc == 1 ? (short) (POLLOUT | (peek ? POLLERR : 0)) : 0;
    return rc;
}
int vp_getsockopt (int fd, int lev, int name, void *v, socklen_t *l)
{
    VP_ASSERT(fd == sd && lev == SOL_SOCKET && name == SO_ERROR && *l >= sizeof(int), "the pending error is asked for");
    if (fails(ENOBUFS)) { established = 0; return err(ENOBUFS); }
    *(int *) v = peek;
    if (peek && !cause) cause = peek;
    *l = sizeof(int);
    return 0;
}
int vp_close (int fd) { (void) fd; VP_ASSERT(0, "the descriptor is the caller's"); return -1; }

int vp_main (void)
{
    static const int fds[] = { 0, 3, 1023, 1024, 70000 };
    struct timeval tv, *lim = NULL; int rc, was, e;
    when w;
    sd = fds[vp_pick(0, 4)];
    flags = vp_int();
    VP_ASSUME(flags >= 0);
    was = flags;
    fault = vp_pick(-1, NFAULT);
    now = moment();
    timed = vp_bool();
    if (timed)
    {
        w = moment();
        tv.tv_sec = w.s; tv.tv_usec = w.u; lim = &tv;
        deadline = sum(now, w);
    }
    errno = vp_bool() ? ETIMEDOUT : 0;
    if (!timed && vp_bool()) rc = u_connect(sd, &sa, sizeof sa);
    else rc = u_connect_ex(sd, &sa, sizeof sa, lim);
    e = errno;
    if (rc == 0)
    {
        VP_ASSERT(established, "success means the connection is there");
    }
    else
    {
        int late = timed && progress && !later(deadline, now);
        VP_ASSERT(!established || (progress && sd >= FD_SETSIZE), "a connection that is there is reported as such");
        VP_ASSERT(cause || late || (progress && sd >= FD_SETSIZE), "an attempt fails for a reason");
        if (cause)
        {
            VP_ASSERT(rc == (cause == ETIMEDOUT ? -2 : -1) || (late && rc == -2), "time-outs are told from failures");
            VP_ASSERT(e == cause || (late && e == ETIMEDOUT), "the error is that of the attempt");
        }
        else if (late && sd < FD_SETSIZE) VP_ASSERT(rc == -2 && e == ETIMEDOUT, "time-outs are told from failures");
    }
    VP_ASSERT(flags == was || restore_bad, "the blocking mode is as it was");
    return rc != 0;
}
