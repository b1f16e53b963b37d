#include "vp.h"
#include <sys/mman.h>
#include <u/libu.h>

#if defined(H_SEQ)
static unsigned char F[4 * SZ + 64];  /* what is in the queue, oldest first */
static size_t n;

static void check (u_rb_t *rb, size_t sz)
{
    VP_ASSERT(u_rb_ready(rb) == n, "ready is the number of bytes written and not yet read");
    VP_ASSERT(u_rb_avail(rb) == u_rb_size(rb) - n, "avail is the free room");
}

int vp_main (void)
{
    u_rb_t *rb = NULL;
    unsigned char d[SZ + 2], e[SZ + 2], *p;
    size_t sz = (size_t) vp_pick(1, SZ), want, j;
    ssize_t rc;
    int i, opt = U_RB_OPT_IMPL_MALLOC | (vp_bool() ? U_RB_OPT_USE_CONTIGUOUS_MEM : 0), ok;
    vp_use_allocator();
    vp_fail_at = vp_pick(-1, 2);
    if (u_rb_create(sz, opt, &rb) != 0)
    {
        VP_ASSERT(vp_fail_at >= 0, "creation fails only for lack of memory");
        VP_ASSERT(vp_live == 0, "failed creation leaks nothing");
        return 1;
    }
    VP_ASSERT(u_rb_size(rb) >= sz, "size is at least the one asked for");
    sz = u_rb_size(rb);
    check(rb, sz);
    for (i = 0; i < NOPS; ++i)
    {
        switch (vp_pick(0, 3))
        {
            case 0:
                want = (size_t) vp_pick(0, (int) sz + 1);
                vp_bytes(d, want);
                rc = u_rb_write(rb, d, want);
                if (want > sz && rc < 0) break;     /* more than the buffer can ever take */
                VP_ASSERT(rc == (ssize_t) (want < sz - n ? want : sz - n), "write takes as much as there is room for");
                memcpy(F + n, d, (size_t) rc);
                n += (size_t) rc;
                break;
            case 1:
                want = (size_t) vp_pick(0, (int) sz + 1);
                memset(e, 0xa5, sizeof e);
                rc = u_rb_read(rb, e, want);
                if (want > sz && rc < 0) break;
                VP_ASSERT(rc == (ssize_t) (want < n ? want : n), "read returns as much as is ready");
                for (j = 0, ok = 1; j < (size_t) rc; ++j) ok &= (e[j] == F[j]);
                VP_ASSERT(ok, "bytes are read in the order they were written");
                for (ok = 1; j < sizeof e; ++j) ok &= (e[j] == 0xa5);
                VP_ASSERT(ok, "read does not write past the bytes returned");
                n -= (size_t) rc;
                memmove(F, F + rc, n);
                break;
            case 2:
                want = (size_t) vp_pick(0, (int) sz + 1);
                j = want;
                p = u_rb_fast_read(rb, &j);
                if (!(opt & U_RB_OPT_USE_CONTIGUOUS_MEM)) { VP_ASSERT(p == NULL, "no-copy read needs contiguous memory"); break; }
                if (want > sz && p == NULL) break;
                want = want < n ? want : n;
                VP_ASSERT((p != NULL) == (want > 0) && j == want, "no-copy read returns as much as is ready");
                for (j = 0, ok = 1; j < want; ++j) ok &= (p[j] == F[j]);
                VP_ASSERT(ok, "bytes are read in the order they were written");
                n -= want;
                memmove(F, F + want, n);
                break;
            default:
                VP_ASSERT(u_rb_clear(rb) == 0, "clear succeeds");
                n = 0;
                break;
        }
        check(rb, sz);
    }
    u_rb_free(rb);
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
#endif

#if defined(H_EXTREME)
int vp_main (void)
{
    u_rb_t *rb = NULL;
    size_t sz = vp_size();
    int opt = U_RB_OPT_IMPL_MALLOC | (vp_bool() ? U_RB_OPT_USE_CONTIGUOUS_MEM : 0);
    vp_use_allocator();
    vp_max_alloc = 4096;
    VP_ASSUME(sz > 4096);
    VP_ASSERT(u_rb_create(sz, opt, &rb) != 0, "a size the memory cannot hold is refused");
    VP_ASSERT(vp_live == 0, "failed creation leaks nothing");
    return 0;
}
#endif

#if defined(H_MMAP)
/* a stand-in for the virtual memory system: pages of PG bytes, a map of what
 * each page of the reserved area shows; any call may fail */
#define PG 16
#define MAXP 8
static char *area;
static int ncall, fail_at, nmap, fds, linked;
static size_t npages, flen;
static struct { int fd, rw, shared; long off; } pg[MAXP];

static int fails (void) { if (ncall++ == fail_at) { errno = ENOMEM; return 1; } return 0; }
long vp_sysconf (int k) { (void) k; return PG; }
int vp_getpagesize (void) { return PG; }
int vp_mkstemp (char *p) { if (fails()) return -1; VP_ASSERT(strlen(p) > 6, "template"); ++fds; linked = 1; return 5; }
int vp_unlink (const char *p) { if (fails()) return -1; linked = 0; return 0; }
int vp_remove (const char *p) { return vp_unlink(p); }
int vp_close (int fd)
{
    VP_ASSERT(fds > 0 && fd == 5, "only the open descriptor is closed, once");
    --fds;
    return 0;
}
int vp_ftruncate (int fd, off_t l) { if (fails()) return -1; VP_ASSERT(fd == 5 && fds, "descriptor is open"); flen = (size_t) l; return 0; }
void *vp_mmap (void *a, size_t len, int prot, int fl, int fd, off_t off)
{
    size_t i, at;
    if (fails()) return MAP_FAILED;
    VP_ASSERT(len > 0 && len % PG == 0, "whole pages are mapped");
    if (!(fl & MAP_FIXED))
    {
        VP_ASSERT(area == NULL, "one area");
        npages = len / PG;
        VP_ASSERT(npages <= MAXP, "area size");
        area = malloc(len);
        for (i = 0; i < npages; ++i) pg[i].fd = -1;
        return area;
    }
    VP_ASSERT(area && (char *) a >= area && (char *) a + len <= area + npages * PG, "fixed mappings stay inside the reserved area");
    at = (size_t) ((char *) a - area) / PG;
    for (i = 0; i < len / PG; ++i)
    {
        pg[at + i].fd = fd;
        pg[at + i].rw = (prot & PROT_READ) && (prot & PROT_WRITE);
        pg[at + i].shared = !!(fl & MAP_SHARED);
        pg[at + i].off = off + (long) (i * PG);
    }
    return a;
}
int vp_munmap (void *a, size_t len)
{
    VP_ASSERT(area && a == area && len == npages * PG, "the whole reserved area is unmapped");
    free(area);
    area = NULL;
    return 0;
}

int vp_main (void)
{
    u_rb_t *rb = NULL;
    size_t hint = (size_t) vp_pick(0, 4 * PG), i, k;
    int rc;
    vp_use_allocator();
    fail_at = vp_pick(-1, 8);
    rc = u_rb_create(hint, vp_bool() ? U_RB_OPT_USE_CONTIGUOUS_MEM : U_RB_OPT_NONE, &rb);
    VP_ASSERT(fds == 0, "no descriptor is left open");
    if (rc != 0)
    {
        VP_ASSERT(fail_at >= 0 && ncall > fail_at, "creation fails only when the system does");
        VP_ASSERT(area == NULL, "failed creation leaves nothing mapped");
        VP_ASSERT(vp_live == 0, "failed creation leaks nothing");
        return 1;
    }
    VP_ASSERT(!linked, "the backing file is gone from the file system");
    VP_ASSERT(u_rb_size(rb) >= hint && u_rb_size(rb) > 0, "size is at least the one asked for");
    VP_ASSERT(u_rb_ready(rb) == 0 && u_rb_avail(rb) == u_rb_size(rb), "starts empty");
    k = u_rb_size(rb) / PG;
    VP_ASSERT(npages == 2 * k && flen >= k * PG, "backing store as large as the buffer");
    for (i = 0; i < npages; ++i)
        VP_ASSERT(pg[i].fd == 5 && pg[i].rw && pg[i].shared && pg[i].off == (long) (i % k * PG), "the two halves show the same memory");
    u_rb_free(rb);
    VP_ASSERT(area == NULL && vp_live == 0, "everything is released");
    return 0;
}
#endif
