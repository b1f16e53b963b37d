#include "vp.h"
#include <stdio.h>
#include <u/libu.h>

static char M[8192];
static size_t ML;

static void same (u_string_t *s)
{
    size_t i;
    const char *p = u_string_c(s);
    VP_ASSERT(u_string_len(s) == ML, "length is that of the content");
    VP_ASSERT(p != NULL, "a C string is always available");
    for (i = 0; i < ML; ++i)
        VP_ASSERT(p[i] == M[i], "character put in is the character read back");
    VP_ASSERT(p[ML] == '\0', "terminated right after the content");
}

static void put (const char *d, size_t n, int reset)
{
    if (reset) ML = 0;
    memcpy(M + ML, d, n);
    ML += n;
}

/* blanks are spaces and tabs */
static int sp (char c) { return c == ' ' || c == '\t'; }

#if defined(H_SEQ)
int vp_main (void)
{
    u_string_t *s = NULL, *t = NULL;
    char d[8], *q;
    size_t n, want;
    int i, rc, op;
    vp_use_allocator();
    vp_fail_at = vp_pick(-1, NOPS);
    n = vp_strn(d, (size_t) vp_pick(0, 2));
    if (u_string_create(n ? d : NULL, n, &s) != 0)
    {
        VP_ASSERT(vp_fail_at >= 0 && vp_fail_at < vp_nalloc, "creation fails only for lack of memory");
        VP_ASSERT(vp_live == 0, "failed creation leaks nothing");
        return 1;
    }
    put(d, n, 1);
    same(s);
    for (i = 0; i < NOPS; ++i)
    {
        int na = vp_nalloc, oom;
        op = vp_pick(0, 8);
        rc = 0;
        switch (op)
        {
            case 0: case 1:
                n = vp_strn(d, (size_t) vp_pick(0, 3));
                rc = op ? u_string_set(s, d, n) : u_string_append(s, d, n);
                oom = vp_fail_at >= na && vp_fail_at < vp_nalloc;
                VP_ASSERT((rc != 0) == oom, "append fails only for lack of memory");
                if (rc == 0) put(d, n, op); else if (op) ML = 0;
                break;
            case 2:
                VP_ASSERT(u_string_clear(s) == 0, "clear succeeds"); ML = 0; break;
            case 3:
                want = vp_size();
                rc = u_string_set_length(s, want);
                VP_ASSERT((rc == 0) == (want <= ML), "set_length accepts exactly the lengths not above the current one");
                if (rc == 0) { VP_ASSERT(u_string_len(s) == want, "length after set_length"); ML = u_string_len(s); }
                break;
            case 4:
                rc = u_string_reserve(s, (size_t) vp_pick(0, 2) * 70);
                oom = vp_fail_at >= na && vp_fail_at < vp_nalloc;
                VP_ASSERT((rc != 0) == oom, "reserve fails only for lack of memory");
                break;
            case 5: case 6:
                n = vp_strn(d, (size_t) vp_pick(0, 2));
                rc = op == 5 ? u_string_aprintf(s, "%s%c", d, '!') : u_string_sprintf(s, "%s%c", d, '!');
                oom = vp_fail_at >= na && vp_fail_at < vp_nalloc;
                VP_ASSERT((rc != 0) == oom, "printf fails only for lack of memory");
                if (rc == 0) { put(d, n, op == 6); put("!", 1, 0); }
                else if (op == 6) ML = 0;
                break;
            case 7:
                VP_ASSERT(u_string_trim(s) == 0, "trim succeeds");
                for (want = 0; want < ML && sp(M[want]); ++want) ;
                while (ML > want && sp(M[ML - 1])) --ML;
                memmove(M, M + want, ML - want);
                ML -= want;
                break;
            default:
                n = vp_strn(d, (size_t) vp_pick(0, 2));
                if (u_string_create(n ? d : NULL, n, &t) != 0) break;
                oom = vp_fail_at >= na && vp_fail_at < vp_nalloc;
                na = vp_nalloc;
                rc = u_string_copy(s, t);
                oom = vp_fail_at >= na && vp_fail_at < vp_nalloc;
                VP_ASSERT((rc != 0) == oom, "copy fails only for lack of memory");
                if (rc == 0) put(d, n, 1); else ML = 0;
                VP_ASSERT(u_string_len(t) == n && memcmp(u_string_c(t), d, n) == 0, "source of a copy is unchanged");
                u_string_free(t);
                break;
        }
        same(s);
    }
    if (vp_bool())
    {
        q = u_string_detach_cstr(s);
        if (q == NULL) VP_ASSERT(ML == 0, "only an empty string detaches as nothing");
        else VP_ASSERT(strlen(q) == ML && memcmp(q, M, ML) == 0, "detached string is the content");
        u_free(q);
    }
    else
        VP_ASSERT(u_string_free(s) == 0, "free succeeds");
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
#endif

#if defined(H_PRINTF)
int vp_main (void)
{
    u_string_t *s = NULL;
    char t[N + 1];
    size_t i, n = (size_t) vp_pick(0, N), k = (size_t) vp_pick(0, 3);
    int clear = vp_bool();
    vp_use_allocator();
    for (i = 0; i < n; ++i) t[i] = 'a' + (char) (i % 23);
    t[n] = '\0';
    if (n) { t[0] = (char) vp_u8(); t[n - 1] = (char) vp_u8(); VP_ASSUME(t[0] && t[n - 1]); }
    VP_ASSERT(u_string_create(NULL, 0, &s) == 0, "create");
    /* arbitrary spare capacity around the size needed */
    if (k) VP_ASSERT(u_string_reserve(s, n + k) == 0, "reserve");
    if (vp_bool()) { VP_ASSERT(u_string_cat(s, "xy") == 0, "append"); put("xy", 2, 1); }
    VP_ASSERT((clear ? u_string_sprintf(s, "%s", t) : u_string_aprintf(s, "%s", t)) == 0, "printf succeeds");
    put(t, n, clear);
    same(s);
    VP_ASSERT(u_string_append(s, t, n) == 0, "append succeeds");
    put(t, n, 0);
    same(s);
    u_string_free(s);
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
#endif

#if defined(H_PFAIL)
#include <stdarg.h>
/* vsnprintf() failing (a conversion error) at an arbitrary call */
static int calls, fail_at;
int vp_vsnprintf (char *b, size_t n, const char *f, va_list ap)
{
    if (calls++ == fail_at) return -1;
    return vsnprintf(b, n, f, ap);
}
int vp_main (void)
{
    u_string_t *s = NULL;
    char t[3], d[3];
    size_t n, m;
    int clear = vp_bool(), rc;
    vp_use_allocator();
    fail_at = vp_pick(-1, 2);
    m = vp_strn(d, (size_t) vp_pick(0, 2));
    n = vp_strn(t, (size_t) vp_pick(0, 2));
    VP_ASSERT(u_string_create(m ? d : NULL, m, &s) == 0, "create");
    put(d, m, 1);
    rc = clear ? u_string_sprintf(s, "%s", t) : u_string_aprintf(s, "%s", t);
    if (fail_at >= 0 && calls > fail_at)
    {
        VP_ASSERT(rc != 0, "a failed conversion is reported");
        if (clear) ML = 0;
    }
    else { VP_ASSERT(rc == 0, "printf succeeds"); put(t, n, clear); }
    same(s);
    u_string_free(s);
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
#endif
