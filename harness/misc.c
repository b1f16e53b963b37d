#include "vp.h"
#include <limits.h>
#include <errno.h>
#include <stdint.h>
#include <stdio.h>
#include <unistd.h>
#include <u/libu.h>

static int white (char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static int has (const char *s, char c) { for (; *s; ++s) if (*s == c) return 1; return 0; }

#if defined(H_NUM)
/* text to integers */
int vp_main (void)
{
    static const char *pre[] = { "", "922337203685477580", "-922337203685477580", "214748364", " -214748364", "+1844674407370955161", "0000000000000000000000" };
    static char t[40];
    static const int errs[] = { 0, EINVAL, ERANGE };
    int i, digits = 0, neg = 0, over = 0, e;
    uintmax_t v = 0;
    long l = 77; int n = 77; uintmax_t u = 77;
#if defined(EDGE)
    strcpy(t, pre[vp_pick(0, 6)]);
#else
    (void) pre;
#endif
    vp_str(t + strlen(t), N);
    for (i = 0; white(t[i]); ++i) ;
    if (t[i] == '-' || t[i] == '+') neg = t[i++] == '-';
    for (; t[i] >= '0' && t[i] <= '9'; ++i)
    {
        uintmax_t d = (uintmax_t) (t[i] - '0');
        digits = 1;
        if (v > UINTMAX_MAX / 10 || v * 10 > UINTMAX_MAX - d) over = 1;
        v = v * 10 + d;
    }
    e = errno = errs[vp_pick(0, 2)];
    switch (vp_pick(0, 2))
    {
        case 0:
            if (u_atol(t, &l) == 0)
            {
                VP_ASSERT(digits && !over && v <= (uintmax_t) LONG_MAX + (uintmax_t) neg, "only what fits is converted");
                VP_ASSERT((uintmax_t) l == (neg ? 0 - v : v), "to the value written");
            }
            else { VP_ASSERT(!digits || over || v > (uintmax_t) LONG_MAX + (uintmax_t) neg, "a number that fits is converted"); VP_ASSERT(l == 77, "a failure leaves the variable alone"); }
            break;
        case 1:
            if (u_atoi(t, &n) == 0)
            {
                VP_ASSERT(digits && !over && v <= (uintmax_t) INT_MAX + (uintmax_t) neg, "only what fits is converted");
                VP_ASSERT((uintmax_t) (long) n == (neg ? 0 - v : v), "to the value written");
            }
            else { VP_ASSERT(!digits || over || v > (uintmax_t) INT_MAX + (uintmax_t) neg, "a number that fits is converted"); VP_ASSERT(n == 77, "a failure leaves the variable alone"); }
            break;
        default:
            if (u_atoumax(t, &u) == 0)
            {
                VP_ASSERT(digits && !over, "only what fits is converted");
                if (!neg) VP_ASSERT(u == v, "to the value written");
            }
            else { VP_ASSERT(!digits || over || neg, "a number that fits is converted"); VP_ASSERT(u == 77, "a failure leaves the variable alone"); }
            break;
    }
    (void) e;
    return 0;
}
#elif defined(H_REAL)
/* text to real numbers: any outcome of strtod() */
static size_t used; static int range; static double got;
double vp_strtod (const char *s, char **end) { *end = (char *) s + used; if (range) errno = ERANGE; return got; }
int vp_main (void)
{
    static const int errs[] = { 0, EINVAL, ERANGE };
    static char t[8] = "1234";
    union { double d; long l; } x, y, k;
    int rc;
    k.d = 77.5; y = k;
    used = (size_t) vp_pick(0, 4);
    range = used ? vp_bool() : 0;
    x.l = used ? vp_long() : 0; got = x.d;
    errno = errs[vp_pick(0, 2)];
    rc = u_atof(t, &y.d);
    VP_ASSERT((rc == 0) == (used > 0 && !range), "converted if and only if there is a number that fits");
    VP_ASSERT(y.l == (rc ? k.l : x.l), "the value, or nothing");
    return 0;
}
#elif defined(H_TOK)
/* tokens between delimiters */
int vp_main (void)
{
    static char t[64], d[4];
    char **tv = NULL, *cell[8], *b;
    size_t n = 99, i, k, lim, max;
    int rc, alt;
    vp_use_allocator();
#if defined(MANY)
    {   /* many tokens: around the points where the vector grows */
        int m = vp_pick(7, 24);
        vp_strn(t, 1);
        for (i = 1; (int) i <= 2 * m; i += 2) { t[i] = 'x'; t[i + 1] = ','; }
        t[i] = '\0';
        strcpy(d, ",");
    }
#else
    vp_str(t, N);
    vp_str(d, 2);
#endif
    alt = vp_bool();
#if defined(FAILS)
    alt = 0;
    vp_fail_at = vp_pick(-1, FAILS);
#endif
    b = malloc(strlen(t) + 1);
    strcpy(b, t);
    if (!alt)
    {
        rc = u_strtok(b, d, &tv, &n);
        VP_ASSERT(strcmp(b, t) == 0, "the text is not touched");
        if (vp_fail_at >= 0 && vp_nalloc > vp_fail_at)
        {
            if (rc) { VP_ASSERT(vp_live == 0, "a failure leaves nothing behind"); VP_ASSERT(tv == NULL && n == 99, "and returns nothing"); free(b); return 0; }
        }
        else VP_ASSERT(rc == 0, "tokenize");
        max = 1000;
    }
    else
    {
        max = (size_t) vp_pick(1, 4);
        tv = malloc(max * sizeof *tv); --max;
        VP_ASSERT(u_tokenize(b, d, tv, max + 1) == 0, "tokenize");
        (void) cell;
    }
    for (i = k = 0; t[i]; )
    {
        if (has(d, t[i])) { ++i; continue; }
        for (lim = 0; t[i + lim] && !has(d, t[i + lim]); ++lim) ;
        if (k == max) break;
        if (!alt) VP_ASSERT(k < n, "no token is lost");
        VP_ASSERT(tv[k] != NULL && strlen(tv[k]) == lim && memcmp(tv[k], t + i, lim) == 0, "each token, in order");
        ++k; i += lim;
    }
    if (!alt) { VP_ASSERT(n == k, "as many as there are"); u_strtok_cleanup(tv, n); }
    else { VP_ASSERT(tv[k] == NULL, "the end is marked"); free(tv); }
    free(b);
    VP_ASSERT(vp_live == 0, "nothing is left behind");
    return 0;
}
#elif defined(H_STR)
/* bounded copies, at sizes around the text's */
int vp_main (void)
{
    static char a[16], s[16], w[40];
    char *b, *p;
    size_t n, i, size, la, ls, j;
    int rc, op = vp_pick(0, 8);
    vp_use_allocator();
    vp_str(s, N); ls = strlen(s);
    switch (op)
    {
        case 0: case 1: case 2: case 3:
            size = (size_t) vp_pick(op == 1 ? 1 : 0, 2 * N + 1);
            b = malloc(size ? size : 1); *b = 'q';
            la = 0;
            if (op == 1) { la = vp_str(a, N); VP_ASSUME(la < size); strcpy(b, a); }
            strcpy(w, a); strcat(w, s); n = la + ls;
            switch (op)
            {
                case 0: rc = u_strlcpy(b, s, size); break;
                case 1: rc = u_strlcat(b, s, size); break;
                case 2: rc = u_snprintf(b, size, "%s", s); break;
                default: rc = u_snprintf(b, size, "%d%s", 42, s); strcpy(w, "42"); strcat(w, s); n = 2 + ls; break;
            }
            VP_ASSERT((rc == 0) == (n < size), "success if and only if the result fits");
            if (size == 0) VP_ASSERT(*b == 'q', "nothing is written to a buffer of no size");
            else
            {
                for (i = 0; i < size - 1 && i < n; ++i) VP_ASSERT(b[i] == w[i], "the result, cut at the size");
                VP_ASSERT(b[i] == '\0', "and terminated");
            }
            free(b);
            break;
        case 4: /* paths */
        {
            char sep = (char) vp_u8();
            VP_ASSUME(sep != '\0');
            size = (size_t) vp_pick(0, 2 * N + 4);
            b = malloc(size ? size : 1);
            rc = u_path_snprintf(b, size, sep, "%s%c%s", s, sep, s);
            strcpy(w, s); w[ls] = sep; w[ls + 1] = '\0'; strcat(w, s);
            n = 2 * ls + 1;
            VP_ASSERT((rc == 0) == (n < size), "success if and only if the text fits");
            if (rc == 0)
            {
                for (i = j = 0; w[i]; ++i)
                    if (i == 0 || w[i] != sep || w[i - 1] != sep) { VP_ASSERT(b[j] == w[i], "the text without repeated separators"); ++j; }
                VP_ASSERT(b[j] == '\0', "and terminated");
            }
            else if (size) VP_ASSERT(memchr(b, '\0', size) != NULL, "terminated");
            free(b);
            break;
        }
        case 5:
            b = malloc(ls + 1); strcpy(b, s);
            VP_ASSERT(u_isblank_str(s) == (strspn(s, " \t") == ls), "blank");
            u_trim(b);
            for (i = 0; s[i] == ' ' || s[i] == '\t'; ++i) ;
            for (n = ls; n > i && (s[n - 1] == ' ' || s[n - 1] == '\t'); --n) ;
            VP_ASSERT(strlen(b) == n - i && memcmp(b, s + i, n - i) == 0, "the text without the blanks at its ends");
            free(b);
            break;
        case 8:
            for (n = i = 0; i < ls; ++i) n |= (unsigned char) s[i] > 127;
            VP_ASSERT((u_data_is_bin(s, ls) != 0) == (n != 0), "binary if not all ASCII");
            break;
        case 6:
            n = vp_bool() ? vp_size() : (size_t) vp_pick(0, N);
            p = u_strndup(s, n);
            VP_ASSERT((p != NULL) == (n <= ls), "no more than there is");
            if (p) { VP_ASSERT(strlen(p) == n && memcmp(p, s, n) == 0, "a copy of the first bytes"); vp_free(p); }
            p = u_strdup(s);
            VP_ASSERT(p != NULL && p != s && strcmp(p, s) == 0, "a copy");
            vp_free(p);
            break;
        default:
            p = u_memdup(s, ls + 1);
            VP_ASSERT(p != NULL && p != s && memcmp(p, s, ls + 1) == 0, "a copy");
            vp_free(p);
            vp_fail_at = vp_nalloc;
            VP_ASSERT(u_strdup(s) == NULL, "no memory, no copy");
            break;
    }
    VP_ASSERT(vp_live == 0, "nothing is left behind");
    return 0;
}
#elif defined(H_SLEEP)
/* sleeping, whatever the interruptions; the clock is kept here */
static unsigned asked, left; static int naps, bad, ended;
unsigned vp_sleep (unsigned n)
{
    unsigned k;
    VP_ASSERT(!ended && !bad, "nothing after the end");
    VP_ASSERT(n > 0 && n <= left, "no longer than what is left");
    if (++naps > NAPS) { left -= n; ended = 1; return 0; }
    switch (vp_pick(0, naps > 1 ? 2 : 3))
    {
        case 0: k = 0; break;
        case 1: k = 1; break;
        case 2: k = n - 1; break;
        default: k = vp_uint(); VP_ASSUME(k <= n); break;
    }
    left -= k;
    if (k == n) { ended = 1; return 0; }
    errno = EINTR;
    if (vp_bool()) { errno = EINVAL; bad = 1; }
    return n - k;
}
int vp_main (void)
{
    int rc;
    left = asked = vp_uint();
    rc = u_sleep(asked);
    if (rc == 0) VP_ASSERT(left == 0, "the whole time");
    else VP_ASSERT(bad, "a failure only if the system fails");
    return rc != 0;
}
#else
/* transfers, however the system splits them */
static unsigned char dev[16], mem[16];
static size_t moved;
static int calls, bad, ended, wr, is_eof;
static ssize_t xfer (int fd, void *buf, size_t n)
{
    int k;
    VP_ASSERT(fd == 7, "the descriptor given");
    VP_ASSERT(!bad && !ended, "nothing is tried after a failure or the end");
    VP_ASSERT(n > 0 && moved + n <= N, "no more than asked for");
    if (calls++ >= CALLS) k = (int) n; else k = vp_pick(-2, (int) n);
    if (k == -2) { errno = EINTR; return -1; }
    if (k == -1) { errno = EIO; bad = 1; return -1; }
    if (k == 0) { ended = 1; return 0; }
    if (wr) memcpy(dev + moved, buf, (size_t) k); else memcpy(buf, dev + moved, (size_t) k);
    moved += (size_t) k;
    return k;
}
ssize_t vp_read (int fd, void *buf, size_t n) { VP_ASSERT(!wr, "read"); return xfer(fd, buf, n); }
ssize_t vp_write (int fd, const void *buf, size_t n) { VP_ASSERT(wr, "write"); return xfer(fd, (void *) buf, n); }
int vp_main (void)
{
    unsigned char *b;
    size_t n = (size_t) vp_pick(0, N), i;
    ssize_t rc, done = -5;
    int how = vp_pick(0, 1), eof = -5;
    wr = vp_bool();
    b = malloc(n ? n : 1);
    vp_bytes(mem, N);
    memcpy(wr ? b : dev, mem, wr ? n : N);
    if (how == 0)
    {
        rc = wr ? u_write(7, b, n) : u_read(7, b, n);
        if (wr) VP_ASSERT(rc == (moved == n ? (ssize_t) n : -1), "all written, or failed");
        else VP_ASSERT(rc == (bad ? -1 : (ssize_t) moved), "what was read up to the end, or failed");
    }
    else
    {
        int nn = vp_bool();
        rc = u_io(wr ? (iof_t) vp_write : vp_read, 7, b, n, nn ? &done : NULL, nn ? &eof : NULL);
        VP_ASSERT((rc == 0) == (moved == n), "success if and only if all is transferred");
        if (nn) VP_ASSERT(done == (ssize_t) moved && eof == ended, "the number of bytes transferred, and whether the end was met");
    }
    if (!bad && !ended) VP_ASSERT(moved == n, "everything is transferred");
    for (i = 0; i < moved; ++i) VP_ASSERT((wr ? dev[i] : b[i]) == mem[i], "every byte, once, in order");
    free(b);
    return 0;
}
#endif
