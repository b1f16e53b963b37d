#include "vp.h"
#include <stdio.h>
#include <u/libu.h>

/* reference content */
static unsigned char M[4096];
static size_t ML;
static int detached;

/* the buffer holds exactly the reference bytes */
static void same (u_buf_t *b)
{
    size_t i;
    unsigned char *p = u_buf_ptr(b);
    VP_ASSERT(u_buf_len(b) == (ssize_t) ML, "length is the number of bytes put in");
    VP_ASSERT(u_buf_size(b) >= u_buf_len(b), "size is at least the length");
    if (ML) VP_ASSERT(p != NULL, "non-empty buffer has data");
    for (i = 0; i < ML; ++i)
        VP_ASSERT(p[i] == M[i], "byte put in is the byte read back");
}

static void terminated (u_buf_t *b)
{
    char *p = u_buf_ptr(b);
    if (p != NULL)
        VP_ASSERT(p[ML] == '\0', "data is NUL terminated right after the content");
}

static void put (const void *d, size_t n, int reset)
{
    if (reset) ML = 0;
    memcpy(M + ML, d, n);
    ML += n;
}

#if defined(H_SEQ)
/* any sequence of operations with arbitrary bytes, one allocation failing at
 * an arbitrary point (or none) */
int vp_main (void)
{
    u_buf_t *b = NULL;
    unsigned char d[DMAX];
    char fmtarg[8];
    size_t n, want;
    int i, rc, op;
    char *old = NULL;
    vp_use_allocator();
    vp_fail_at = vp_pick(-1, NOPS);
    if (u_buf_create(&b) != 0)
    {
        VP_ASSERT(vp_fail_at == 0, "creation fails only for lack of memory");
        VP_ASSERT(vp_live == 0, "failed creation leaks nothing");
        return 1;
    }
    same(b);
    for (i = 0; i < NOPS; ++i)
    {
        int na = vp_nalloc, oom;
        op = vp_pick(0, 6);
        switch (op)
        {
            case 0: case 1:
                n = (size_t) vp_pick(0, 3); if (n == 3) n = DMAX;
                vp_bytes(d, n);
                rc = op ? u_buf_set(b, d, n) : u_buf_append(b, d, n);
                oom = vp_fail_at >= na && vp_fail_at < vp_nalloc;
                if (n == 0) { VP_ASSERT(rc != 0, "empty data is refused"); break; }
                VP_ASSERT((rc != 0) == oom, "append fails only for lack of memory");
                if (rc == 0) put(d, n, op);
                else if (op == 1) ML = 0; /* set drops the old content first */
                break;
            case 2:
                VP_ASSERT(u_buf_clear(b) == 0, "clear succeeds"); ML = 0; rc = 0; break;
            case 3:
                want = vp_size();
                rc = u_buf_shrink(b, want);
                VP_ASSERT((rc == 0) == (want <= ML), "shrink accepts exactly the lengths not above the current one");
                if (rc == 0) { VP_ASSERT(u_buf_len(b) == (ssize_t) want, "length after shrink"); ML = (size_t) u_buf_len(b); }
                break;
            case 4:
                n = (size_t) vp_pick(0, 2) * 9;
                rc = u_buf_reserve(b, n);
                oom = vp_fail_at >= na && vp_fail_at < vp_nalloc;
                VP_ASSERT((rc != 0) == oom, "reserve fails only for lack of memory");
                if (rc == 0) VP_ASSERT((size_t) u_buf_size(b) >= n, "reserved capacity is there");
                break;
            case 5:
                n = vp_strn(fmtarg, (size_t) vp_pick(1, 4));
                rc = u_buf_printf(b, "%s:", fmtarg);
                oom = vp_fail_at >= na && vp_fail_at < vp_nalloc;
                VP_ASSERT((rc != 0) == oom, "printf fails only for lack of memory");
                if (rc == 0) { put(fmtarg, n, 0); put(":", 1, 0); }
                break;
            default:
                u_free(old);
                old = u_buf_ptr(b);
                VP_ASSERT(u_buf_detach(b) == 0, "detach succeeds");
                VP_ASSERT(u_buf_ptr(b) == NULL && u_buf_size(b) == 0, "detached buffer owns nothing");
                ML = 0; rc = 0;
                break;
        }
        same(b);
        if (rc == 0)
            terminated(b);
    }
    VP_ASSERT(u_buf_free(b) == 0, "free succeeds");
    u_free(old);
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
#endif

#if defined(H_PRINTF)
/* output of every length up to N appended to a buffer of arbitrary fill and
 * capacity */
int vp_main (void)
{
    u_buf_t *b = NULL;
    char s[N + 1];
    size_t i, n = (size_t) vp_pick(1, N), pre = (size_t) vp_pick(0, 2), cap = (size_t) vp_pick(0, 2);
    vp_use_allocator();
    for (i = 0; i < n; ++i) s[i] = 'a' + (char) (i % 23);
    s[n] = '\0';
    s[0] = (char) vp_u8(); s[n - 1] = (char) vp_u8();
    VP_ASSUME(s[0] && s[n - 1]);
    VP_ASSERT(u_buf_create(&b) == 0, "create");
    VP_ASSERT(u_buf_reserve(b, cap == 2 ? n : cap) == 0, "reserve");
    if (pre)
    {
        VP_ASSERT(u_buf_append(b, "0123456789", pre * 5) == 0, "append");
        put("0123456789", pre * 5, 0);
    }
    VP_ASSERT(u_buf_printf(b, "%s", s) == 0, "printf succeeds");
    put(s, n, 0);
    same(b);
    terminated(b);
    u_buf_free(b);
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
#endif

#if defined(H_RESERVE)
/* any requested capacity whatsoever, before and after some content */
int vp_main (void)
{
    u_buf_t *b = NULL;
    size_t want = vp_size();
    int pre = vp_bool(), rc;
    vp_use_allocator();
    vp_max_alloc = 4096;
    if (want != ~(size_t) 0 && want > 40) { VP_ASSUME(want > 5000); }
    else if (want <= 40) want = (size_t) vp_pick(0, 40);
    VP_ASSERT(u_buf_create(&b) == 0, "create");
    if (pre) { VP_ASSERT(u_buf_set(b, "hello", 5) == 0, "set"); put("hello", 5, 1); }
    rc = u_buf_reserve(b, want);
    VP_ASSERT((rc == 0) == (want <= 40), "reserve succeeds exactly when the memory can be had");
    if (rc == 0) VP_ASSERT((size_t) u_buf_size(b) >= want, "reserved capacity is there");
    same(b);
    VP_ASSERT(u_buf_append(b, "xyz", 3) == 0, "usable afterwards");
    put("xyz", 3, 0);
    same(b); terminated(b);
    u_buf_free(b);
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
#endif

#if defined(H_OS)
#include "vp_os.h"
/* save and load back through a file system where any call may fail */
int vp_main (void)
{
    u_buf_t *b = NULL, *c = NULL;
    unsigned char d[N + 1];
    size_t n = (size_t) vp_pick(0, N), pre = (size_t) vp_pick(0, 2) * 3, i;
    int rs, rl;
    vp_use_allocator();
    os_reset();
    vp_bytes(d, n);
    VP_ASSERT(u_buf_create(&b) == 0 && u_buf_create(&c) == 0, "create");
    if (n) VP_ASSERT(u_buf_append(b, d, n) == 0, "append");
    if (pre) { VP_ASSERT(u_buf_append(c, "previous", pre) == 0, "append"); }
    os_fault(vp_pick(-1, NFAULT));
    rs = u_buf_save(b, "f");
    if (rs == 0)
    {
        int faulted = os_faulted();
        VP_ASSERT(os_size("f") == (long) n, "saved file has the buffer's length");
        for (i = 0; i < n; ++i) VP_ASSERT(os_data("f")[i] == d[i], "saved file has the buffer's bytes");
        rl = u_buf_load(c, "f");
        if (rl == 0)
        {
            ML = 0; put(d, n, 1);
            same(c); terminated(c);
        }
        else
            VP_ASSERT(os_faulted() > faulted, "load fails only when the system does");
    }
    else
        VP_ASSERT(os_faulted() > 0, "save fails only when the system does");
    VP_ASSERT(os_open_files() == 0, "no file is left open");
    u_buf_free(b); u_buf_free(c);
    VP_ASSERT(vp_live == 0, "every block is released");
    return rs == 0 ? 0 : 1;
}
#endif

#if defined(H_PFAIL)
#include <stdarg.h>
/* vsnprintf() failing (a conversion error) at an arbitrary call */
static int calls, fail_at;
int vp_vsnprintf (char *b, size_t n, const char *f, va_list ap)
{
    if (calls++ == fail_at) return -1;
    return vsnprintf(b, n, f, ap);
}
int vp_main (void)
{
    u_buf_t *b = NULL;
    char t[4], d[3];
    size_t n, m;
    int rc;
    vp_use_allocator();
    fail_at = vp_pick(-1, 2);
    m = vp_strn(d, (size_t) vp_pick(0, 2));
    n = vp_strn(t, (size_t) vp_pick(1, 3));
    VP_ASSERT(u_buf_create(&b) == 0, "create");
    if (m) { VP_ASSERT(u_buf_append(b, d, m) == 0, "append"); put(d, m, 1); }
    rc = u_buf_printf(b, "%s", t);
    if (fail_at >= 0 && calls > fail_at)
        VP_ASSERT(rc != 0, "a failed conversion is reported");
    else { VP_ASSERT(rc == 0, "printf succeeds"); put(t, n, 0); }
    same(b);
    u_buf_free(b);
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
#endif
