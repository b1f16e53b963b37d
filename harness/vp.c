/* support code shared by both modes; see vp.h */
#include "vp.h"

#ifdef VP_REPLAY
#include <stdio.h>
#include <unistd.h>
#include <signal.h>

#include <sys/mman.h>
#include <sys/wait.h>

/* what all processes share */
static struct { unsigned nassert; size_t n, i; long long v[1 << 16]; } *vp_sh;
unsigned *vp_nassertp;

void *vp_shared (size_t n)
{
    void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED)
    {
        fprintf(stderr, "VP-REPLAY: no memory\n");
        _exit(78);
    }
    return p;
}

static void vp_load (void)
{
    const char *fn = getenv("VP_INPUTS");
    FILE *fp;
    if (fn == NULL || (fp = fopen(fn, "r")) == NULL)
    {
        fprintf(stderr, "VP-REPLAY: no inputs\n");
        _exit(78);
    }
    vp_sh = vp_shared(sizeof *vp_sh);
    vp_nassertp = &vp_sh->nassert;
    while (vp_sh->n < sizeof vp_sh->v / sizeof *vp_sh->v && fscanf(fp, "%lld", &vp_sh->v[vp_sh->n]) == 1)
        ++vp_sh->n;
    fclose(fp);
}

/* values past the end of the counterexample are unconstrained: use 0 */
long long vp_next (void) { return vp_sh->i < vp_sh->n ? vp_sh->v[vp_sh->i++] : 0; }

int vp_child (void *shared, size_t n)
{
    int st;
    pid_t pid;
    (void) shared; (void) n;
    fflush(NULL);
    if ((pid = fork()) == 0)
        return 0;
    if (pid == -1 || waitpid(pid, &st, 0) != pid)
    {
        fprintf(stderr, "VP-REPLAY: no processes\n");
        _exit(78);
    }
    if (!WIFEXITED(st))
        raise(WIFSIGNALED(st) ? WTERMSIG(st) : SIGABRT);
    if (WEXITSTATUS(st) != 0)
        _exit(WEXITSTATUS(st));
    return 1;
}
void vp_endchild (void) { fflush(NULL); _exit(0); }

void vp_fail (const char *what, const char *file, int line)
{
    fprintf(stderr, "VP-REPLAY-FAILED: %s (%s:%d)\n", what, file, line);
    fflush(NULL);
    _exit(99);
}

void vp_assume_fail (const char *file, int line)
{
    fprintf(stderr, "VP-REPLAY-ASSUME: (%s:%d)\n", file, line);
    _exit(77);
}

int vp_entry (void);
static int vp_reached_mark;
void vp_mark (void) { vp_reached_mark = 1; }

int main (void)
{
    vp_load();
    (void) vp_entry();
    fprintf(stderr, "VP-REPLAY-COMPLETED asserts=%u reached=%d\n", vp_nassert, vp_reached_mark);
    return 0;
}
#endif

#ifndef VP_REPLAY
int __vp_fork (void *shared, size_t n);
void *vp_shared (size_t n) { return calloc(1, n); }
int vp_child (void *shared, size_t n) { return __vp_fork(shared, n); }
void vp_endchild (void) { exit(0); }
#endif

/* a harness returns 0 when it got to the end of its main scenario */
int vp_entry (void)
{
    int rc = vp_main();
    if (rc == 0)
        VP_REACHED();
    return rc;
}

int vp_live = 0, vp_nalloc = 0, vp_fail_at = -1;
size_t vp_max_alloc = (size_t) -1;

static int vp_deny (size_t sz)
{
    int k = vp_nalloc++;
    if (vp_fail_at >= 0 && k == vp_fail_at)
        return 1;
    return sz > vp_max_alloc;
}

void *vp_malloc (size_t sz)
{
    void *p;
    if (vp_deny(sz))
    {
        errno = ENOMEM;
        return NULL;
    }
    p = malloc(sz);
    ++vp_live;
    return p;
}

void *vp_calloc (size_t n, size_t sz)
{
    void *p;
    if ((sz && n > (size_t) -1 / sz) || vp_deny(n * sz))
    {
        errno = ENOMEM;
        return NULL;
    }
    p = calloc(n, sz);
    ++vp_live;
    return p;
}

void *vp_realloc (void *o, size_t sz)
{
    void *p;
    if (vp_deny(sz))
    {
        errno = ENOMEM;
        return NULL;
    }
    p = realloc(o, sz);
    if (o == NULL)
        ++vp_live;
    return p;
}

void vp_free (void *p)
{
    if (p)
        --vp_live;
    free(p);
}

void u_memory_set_malloc (void *(*f) (size_t));
void u_memory_set_calloc (void *(*f) (size_t, size_t));
void u_memory_set_realloc (void *(*f) (void *, size_t));
void u_memory_set_free (void (*f) (void *));

#ifndef VP_NO_MEMORY
void vp_use_allocator (void)
{
    u_memory_set_malloc(vp_malloc);
    u_memory_set_calloc(vp_calloc);
    u_memory_set_realloc(vp_realloc);
    u_memory_set_free(vp_free);
}
#endif

/* logging never affects the properties: empty sinks (log.c is verified on its
 * own, by the harnesses that define VP_REAL_LOG) */
#ifndef VP_REAL_LOG
#include <stdarg.h>
int facility = 0;
int u_log_write_ex (int fac, int lev, int flags, int err, const char *ctx, int line,
        const char *func, const char *fmt, ...)
{ (void) fac; (void) lev; (void) flags; (void) err; (void) ctx; (void) line; (void) func; (void) fmt; return 0; }
int u_console_write_ex (int err, const char *fname, int line,
        const char *func, const char *fmt, ...)
{ (void) err; (void) fname; (void) line; (void) func; (void) fmt; return 0; }
int u_strerror_r (int err, char *buf, size_t size)
{ (void) err; if (size) buf[0] = '\0'; return 0; }
#endif
