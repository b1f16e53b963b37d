/* the stand-ins for C library functions that a system lacks; each is compiled
 * under another name next to the functions of the system */
#include "vp.h"
#include <u/libu_conf.h>
#include <time.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/stat.h>

#if defined(H_STR)
size_t vp_strlcpy (char *, const char *, size_t);
size_t vp_strlcat (char *, const char *, size_t);
char *vp_strsep (char **, const char *);
char *vp_strtok_r (char *, const char *, char **);
#define MIN(a, b) ((a) < (b) ? (a) : (b))
int vp_main (void)
{
    char s[N + 1], t[N + 1], m[2 * N + 2], d[3], *a, *b, *x, *y; size_t n, k, r, i; int in, what = vp_pick(0, 3), any = 0;
    vp_str(s, N);
    vp_use_allocator();
    if (what < 2)
    {
        n = (size_t) vp_pick(0, 2 * N + 1);
        a = malloc(n + 1);                      /* one byte past the end is nobody's business */
        vp_str(t, 2);
        for (i = 0; i <= n; ++i) a[i] = 'x';
        if (what == 0)
        {
            r = vp_strlcpy(a, s, n);
            VP_ASSERT(r == strlen(s), "strlcpy: the length of the source");
            if (n) { k = MIN(r, n - 1); VP_ASSERT(!memcmp(a, s, k) && a[k] == '\0', "strlcpy: as much as fits, terminated"); }
            else VP_ASSERT(a[0] == 'x', "strlcpy: nothing without room");
        }
        else
        {
            k = strlen(t);
            memcpy(a, t, MIN(k + 1, n));        /* not terminated if there is no room */
            r = vp_strlcat(a, s, n);
            if (k >= n) { VP_ASSERT(r == n + strlen(s), "strlcat: the length tried"); VP_ASSERT(!memcmp(a, t, n), "strlcat: nothing without room"); }
            else
            {
                VP_ASSERT(r == k + strlen(s), "strlcat: the length tried");
                strcpy(m, t); strcat(m, s); k = MIN(r, n - 1);
                VP_ASSERT(!memcmp(a, m, k) && a[k] == '\0', "strlcat: as much as fits, terminated");
            }
        }
        VP_ASSERT(a[n] == 'x', "nothing past the buffer");
        free(a);
        return r >= n;
    }
    vp_str(d, 2);
    strcpy(t, s);
    /* by definition: what is between two delimiters */
    a = b = t; in = 1;
    for (i = 0; i <= N + 1; ++i)
    {
        if (what == 2)
        {
            x = vp_strsep(&a, d);
            if (b == NULL) { VP_ASSERT(x == NULL && a == NULL, "strsep: no more"); continue; }
            k = strcspn(s + (b - t), d);
            VP_ASSERT(x == b, "strsep: the next token, even if empty");
            VP_ASSERT(strlen(x) == k && !memcmp(x, s + (b - t), k), "strsep: up to the next delimiter");
            b = s[b - t + (long) k] ? b + k + 1 : NULL;
            VP_ASSERT(a == b, "strsep: the rest");
        }
        else
        {
            x = vp_strtok_r(i ? NULL : t, d, &a);
            if (b) b += strspn(s + (b - t), d);
            if (b == NULL || s[b - t] == '\0') { VP_ASSERT(x == NULL, "strtok_r: no more"); b = NULL; continue; }
            k = strcspn(s + (b - t), d);
            VP_ASSERT(x == b, "strtok_r: the next token that isn't empty");
            VP_ASSERT(strlen(x) == k && !memcmp(x, s + (b - t), k), "strtok_r: up to the next delimiter");
            b = s[b - t + (long) k] ? b + k + 1 : NULL;
        }
        any = 1;
    }
    (void) in; (void) y; (void) any;
    return 0;
}
#elif defined(H_FNM)
#include <u/missing/fnmatch.h>
#include <ctype.h>
int vp_fnmatch (const char *, const char *, int);
static int fl;
static int fold (int c) { return (fl & FNM_CASEFOLD) && c >= 'A' && c <= 'Z' ? c + 32 : c; }
/* the end of the bracket expression at p (after '['), NULL if what it means is unspecified; *hit if it has c in it */
static const char *bracket (const char *p, int c, int *hit)
{
    int neg = 0, lo, hi, first = 1, in = 0;
    if (*p == '^') return NULL;
    if (*p == '!') { neg = 1; ++p; }
    for (; first || *p != ']'; first = 0)
    {
        if (*p == '\\' && !(fl & FNM_NOESCAPE)) ++p;
        if (*p == '\0' || *p == '/' || *p == '[') return NULL;
        if (*p == '-' && !(first || p[1] == ']')) return NULL;
        lo = hi = (unsigned char) *p++;
        if (*p == '-' && p[1] != ']')
        {
            ++p;
            if (*p == '\\' && !(fl & FNM_NOESCAPE)) ++p;
            if (*p == '\0' || *p == '/' || *p == '[' || *p == '-') return NULL;
            hi = (unsigned char) *p++;
            if (lo > hi || ((fl & FNM_CASEFOLD) && fold(lo) > fold(hi))) return NULL;
        }
        in |= fold(lo) <= fold(c) && fold(c) <= fold(hi);
    }
    *hit = in != neg;
    return p + 1;
}
static int specified (const char *p)
{
    int h;
    for (; *p; ++p)
        if (*p == '\\' && !(fl & FNM_NOESCAPE)) { if (*++p == '\0') return 0; }
        else if (*p == '[') { if ((p = bracket(p + 1, 0, &h)) == NULL) return 0; --p; }
    return 1;
}
static int hidden (const char *s, const char *all)
{
    return *s == '.' && (fl & FNM_PERIOD) && (s == all || ((fl & FNM_PATHNAME) && s[-1] == '/'));
}
static int match (const char *p, const char *s, const char *all)
{
    int c, h;
    for (; *p; ++p, ++s)
    {
        c = *p;
        if (c == '*')
        {
            if (hidden(s, all)) return 0;
            for (;; ++s)
            {
                if (match(p + 1, s, all)) return 1;
                if (*s == '\0' || (*s == '/' && (fl & FNM_PATHNAME))) return 0;
            }
        }
        if (*s == '\0') return 0;
        if (c == '?' || c == '[')
        {
            if ((*s == '/' && (fl & FNM_PATHNAME)) || hidden(s, all)) return 0;
            if (c == '?') continue;
            p = bracket(p + 1, (unsigned char) *s, &h) - 1;
            if (!h) return 0;
            continue;
        }
        if (c == '\\' && !(fl & FNM_NOESCAPE)) c = *++p;
        if (fold((unsigned char) c) != fold((unsigned char) *s)) return 0;
    }
    return *s == '\0' || (*s == '/' && (fl & FNM_LEADING_DIR));
}
int vp_main (void)
{
    static const int flags[] = { 0, FNM_NOESCAPE, FNM_PATHNAME, FNM_PERIOD, FNM_PATHNAME | FNM_PERIOD, FNM_CASEFOLD, FNM_LEADING_DIR | FNM_PATHNAME, FNM_LEADING_DIR | FNM_PERIOD };
    char p[N + 3], s[M + 1]; int r;
    memset(p, 0, sizeof p); memset(s, 0, sizeof s);
    fl = flags[vp_pick(0, 7)];
#ifdef BRACKET
    p[0] = '[';
    strcpy(p + 1 + vp_stra(p + 1, N, PAT), "]");
#else
    vp_stra(p, N, PAT);
#endif
    vp_stra(s, M, TXT);
    VP_ASSUME(specified(p));
    r = vp_fnmatch(p, s, fl);
    VP_ASSERT(r == 0 || r == FNM_NOMATCH, "fnmatch: a verdict");
    VP_ASSERT((r == 0) == match(p, s, s), "fnmatch: a match is what the pattern describes");
    return r;
}
#elif defined(H_TIME)
time_t vp_timegm (struct tm *);
static int envs; static long off;
/* the environment, which other parts of the program may be holding on to */
char *vp_getenv (const char *n) { (void) n; return NULL; }
int vp_putenv (char *s) { (void) s; ++envs; return 0; }
int vp_setenv (const char *n, const char *v, int o) { (void) n; (void) v; (void) o; ++envs; return 0; }
int vp_unsetenv (const char *n) { (void) n; ++envs; return 0; }
void vp_tzset (void) { }
/* the local time zone is whatever it is */
time_t vp_mktime (struct tm *t) { (void) t; return (time_t) off; }
static struct tm want; static long expect;
struct tm *vp_gmtime (const time_t *t) { VP_ASSERT(*t == expect, "timegm: the seconds since the epoch"); return &want; }
struct tm *vp_gmtime_r (const time_t *t, struct tm *r) { *r = *vp_gmtime(t); return r; }
static int leap (long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
int vp_main (void)
{
    static const int days[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    static const int years[] = { -100, -1, 0, 1, 2, 68, 69, 70, 71, 72, 73, 99, 100, 101, 104, 137, 138, 139, 199, 200, 201, 204, 300, 8099 };
    struct tm t, u; long d = 0, y, y0; int k, m, n, w, odd; time_t r;
    memset(&t, 0, sizeof t);
    t.tm_year = years[vp_pick(0, 23)];
    m = vp_pick(-2, 13);
    if (m == -2) m = -13;
    if (m == 13) m = 25;
    t.tm_mon = m; n = (m + 24) % 12; y0 = t.tm_year + 1900L + (m + 24) / 12 - 2;
    t.tm_mday = 1 + vp_pick(0, 3) * 9;
    if (vp_bool()) t.tm_mday = days[n] + (n == 1 && leap(y0));
    odd = vp_pick(0, 1);
    if (odd) t.tm_mday += vp_pick(0, 1) ? 400 : -40;
    t.tm_hour = vp_range(odd ? -100 : 0, odd ? 100 : 23); t.tm_min = vp_range(odd ? -1000 : 0, odd ? 1000 : 59); t.tm_sec = vp_range(0, odd ? 100000 : 59);
    t.tm_isdst = vp_pick(-1, 1);
    odd |= m != n;
    off = vp_long();
    u = want = t;
    for (y = 1970; y < y0; ++y) d += 365 + leap(y);
    for (y = 1969; y >= y0; --y) d -= 365 + leap(y);
    for (k = 0; k < n; ++k) d += days[k] + (k == 1 && leap(y0));
    d += u.tm_mday - 1;
    expect = ((d * 24 + u.tm_hour) * 60 + u.tm_min) * 60 + u.tm_sec;
    w = (int) ((d % 7 + 11) % 7);
    want.tm_wday = w; want.tm_isdst = 0;
    r = vp_timegm(&t);
    VP_ASSERT(r == expect, "timegm: the seconds since the epoch");
    if (!odd)
    {
        VP_ASSERT(t.tm_year == u.tm_year && t.tm_mon == u.tm_mon && t.tm_mday == u.tm_mday && t.tm_hour == u.tm_hour && t.tm_min == u.tm_min && t.tm_sec == u.tm_sec, "timegm: the same time");
        VP_ASSERT(t.tm_wday == w && t.tm_isdst == 0, "timegm: the day of the week is filled in");
    }
    VP_ASSERT(envs == 0, "timegm: the environment is left alone");
    return 0;
}
#elif defined(H_TEMP)
int vp_mkstemps (char *, int);
static char tried[TRIES][12], want[12]; static int ntry, taken, bad, len, nx, suf, excl = 1;
int vp_rand (void) { int v = vp_int(); VP_ASSUME(v == 0 || v == 61 || v == 35); return v; }
void vp_srand (unsigned s) { (void) s; }
time_t vp_time (time_t *t) { (void) t; return 5; }
static int dir = 1;
int vp_stat (const char *p, struct stat *st) { memset(st, 0, sizeof *st); VP_ASSERT(!strcmp(p, "d"), "mkstemps: only the directory is looked at"); if (dir < 0) { errno = ENOENT; return -1; } st->st_mode = dir ? S_IFDIR : S_IFREG; return 0; }
int vp_lstat (const char *p, struct stat *st) { return vp_stat(p, st); }
int vp_open (const char *p, int f, ...)
{
    int i;
    VP_ASSERT((int) strlen(p) == len, "mkstemps: a name of the same length");
    for (i = 0; i < len; ++i)
        if (i >= len - suf - nx && i < len - suf) VP_ASSERT((p[i] >= '0' && p[i] <= '9') || (p[i] >= 'a' && p[i] <= 'z') || (p[i] >= 'A' && p[i] <= 'Z'), "mkstemps: letters and digits instead of X");
        else VP_ASSERT(p[i] == want[i], "mkstemps: the rest of the name as it was");
    for (i = 0; i < ntry; ++i) VP_ASSERT(strcmp(p, tried[i]) != 0, "mkstemps: no name is tried twice");
    VP_ASSERT((f & 0100) && (f & 0200), "mkstemps: only a new file is opened");
    VP_ASSUME(ntry < TRIES);
    strcpy(tried[ntry++], p);
    if (bad) { errno = 13; return -1; }
    if (ntry <= taken) { errno = 17; return -1; }
    return 42;
}
int vp_main (void)
{
    char t[12]; int fd, pre = vp_pick(0, 3), i;
    nx = vp_pick(0, 2); suf = vp_pick(0, 3); taken = vp_pick(0, TRIES - 1); bad = vp_pick(0, 1); dir = vp_pick(-1, 1);
    strcpy(want, (const char *[]) { "", "a", "d/", "d/b" } [pre]);
    for (i = 0; i < nx; ++i) strcat(want, "X");
    strcat(want, (const char *[]) { "", "X", ".c", ".cc" } [suf]);
    len = (int) strlen(want);
    strcpy(t, want);
    fd = vp_mkstemps(t, suf);
    if (fd >= 0)
    {
        VP_ASSERT(fd == 42 && !bad && ntry == taken + 1 && !strcmp(t, tried[ntry - 1]), "mkstemps: the file that was opened");
        VP_ASSERT(pre < 2 || dir == 1, "mkstemps: only within a directory");
    }
    else
    {
        VP_ASSERT(fd == -1, "mkstemps: -1 on failure");
        /* names grow from where they started, and need not start over */
        VP_ASSERT(bad || taken || nx == 0 || (pre >= 2 && dir != 1), "mkstemps: a name is found");
    }
    return fd < 0;
}
#else
void vp_vsyslog (int, const char *, va_list);
static char said[1100]; static int nsaid, prio;
void vp_syslog (int p, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt); vsnprintf(said, sizeof said, fmt, ap); va_end(ap);
    prio = p; ++nsaid;
}
static void say (int p, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vp_vsyslog(p, fmt, ap); va_end(ap); }
int vp_main (void)
{
    static char m[1100]; int n = (int []) { 0, 1, 2, 1000, 1022, 1023 } [vp_pick(0, 5)], i, p = vp_int(); char w[1100];
    memset(m, 'm', (size_t) n);
    for (i = 0; i < 3 && i < n; ++i) { m[n - 1 - i] = (char) vp_u8(); VP_ASSUME(m[n - 1 - i]); }
    if (vp_bool()) say(p, "%s", m);
    else { VP_ASSUME(strchr(m, '%') == NULL); say(p, m); }
    strcpy(w, m);
    VP_ASSERT(nsaid == 1 && prio == p && !strcmp(said, w), "vsyslog: the message, once, with its priority");
    return 0;
}
#endif
