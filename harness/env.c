#include "vp.h"
#include <stdio.h>
#include <u/libu.h>
#include "vp_os.h"

/* what reached the environment */
static char name[8][OS_CAP + 1], val[8][OS_CAP + 1]; static int nset, bad_set;
int vp_setenv (const char *n, const char *v, int over)
{
    VP_ASSERT(over == 1, "earlier values are replaced");
    VP_ASSERT(nset < 8, "harness: too many variables");
    VP_ASSERT(strlen(n) <= OS_CAP && strlen(v) <= OS_CAP, "no more than was read is set");
    if (nset == bad_set) { errno = ENOMEM; return -1; }
    strcpy(name[nset], n); strcpy(val[nset++], v);
    return 0;
}

/* the file that a POSIX shell reads on account of a command of the form
 * ". FILE [redirections] && env", NULL if it is anything else */
static const char *sourced (const char *c, size_t max)
{
    static char w[OS_NAME]; size_t n = 0; int q = 0, any = 0;
    while (*c == ' ' || *c == '\t') ++c;
    if (*c == '.') ++c; else if (!strncmp(c, "source", 6)) c += 6; else return NULL;
    if (*c != ' ' && *c != '\t') return NULL;
    while (*c == ' ' || *c == '\t') ++c;
    if (!strncmp(c, "-- ", 3)) for (c += 3; *c == ' '; ++c) ;
    for (; *c && (q || (*c != ' ' && *c != '\t')); ++c)
    {
        any = 1;
        if (q == 1) { if (*c == '\'') { q = 0; continue; } }
        else if (q == 2)
        {
            if (*c == '"') { q = 0; continue; }
            if (*c == '$' || *c == '`') return NULL;
            if (*c == '\\') { if (c[1] && strchr("$`\"\\", c[1])) ++c; else if (c[1] == '\n') { ++c; continue; } }
        }
        else
        {
            if (*c == '\'') { q = 1; continue; }
            if (*c == '"') { q = 2; continue; }
            if (*c == '\\') { if (!c[1]) return NULL; ++c; if (*c == '\n') continue; }
            else if (strchr("\n$`;&|<>()*?[#~{", *c)) return NULL;
        }
        if (n >= max) return NULL;
        w[n++] = *c;
    }
    if (q || !any) return NULL;
    w[n] = '\0';
    if ((c = strstr(c, "&&")) == NULL || strstr(c, "env") == NULL) return NULL;
    return w;
}
/* a name without a slash would be searched for in the PATH */
static int same_file (const char *w, const char *f)
{
    if (w == NULL || strchr(w, '/') == NULL || w[0] == '-') return 0;
    while (f[0] != '/' && w[0] == '.' && w[1] == '/') for (w += 2; *w == '/'; ++w) ;
    while (f[0] != '/' && f[0] == '.' && f[1] == '/') for (f += 2; *f == '/'; ++f) ;
    return strcmp(w, f) == 0;
}

#ifdef H_FILE
int vp_main (void)
{
    static char f[OS_NAME]; int rc, st; size_t i, n;
    vp_use_allocator();
    os_reset();
#ifdef LONG
    n = (size_t []) { 500, 990, 1000, 1005, 1010, 1022, 1023, 1024, 1090 } [vp_pick(0, 8)];
    memset(f, 'n', n); memcpy(f, "d/", 2);
    f[n - 1] = "n' "[vp_pick(0, 2)];
#else
    n = 1 + vp_stra(f + 1, N - 1, "a /'\"$\\;\n");
    f[0] = "a /'\"$\\;\n-.#~"[vp_pick(0, 12)];
#endif
    f[n] = '\0';
    os_put(f, "", 0);
    os_pipe("PA=1\n", 5);
    st = vp_pick(0, 1); os_pstatus(st ? 512 : 0);
    bad_set = -1;
    rc = u_env_init("P", f);
    VP_ASSERT(rc == 0 || st || n > 900, "loading succeeds");
    if (rc == 0)
    {
        VP_ASSERT(!st, "loading fails when the file can't be read by the shell");
        VP_ASSERT(same_file(sourced(os_command(), OS_NAME - 1), f), "the file given is read, and nothing else is run");
        VP_ASSERT(nset == 1 && !strcmp(name[0], "PA") && !strcmp(val[0], "1"), "what it sets is set");
    }
    (void) i;
    VP_ASSERT(os_open_files() == 0, "no stream is left open");
    VP_ASSERT(vp_live == 0, "every block is released");
    return rc != 0;
}
#else
int vp_main (void)
{
    static const char *pre[] = { "", "P", "PA", "PA=" };
    static unsigned char t[OS_CAP + 1]; size_t n = 0, i, j, e; const char *p = pre[vp_pick(0, 3)]; int rc, k = 0, plain;
    vp_use_allocator();
    os_reset();
#if defined(LONG)
    {
        static const int len[] = { 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 2046, 2047, 2048 };
        int l = len[vp_pick(0, 10)], w = vp_pick(0, 1);
        memset(t, 'v', (size_t) l);
        t[0] = 'P'; t[w ? 5 : 1000] = '=';
        for (i = 1; i < 4; ++i) { t[l - i] = vp_u8(); VP_ASSUME(t[l - i] != '\n' && t[l - i] != 0); }
        n = (size_t) l;
        if (vp_bool()) { t[n++] = '\n'; if (vp_bool()) { memcpy(t + n, "PA=1\n", 5); n += 5; } }
    }
#else
    n = vp_stra((char *) t, N, "PA=\nb#");
#endif
    os_put("dir/f", "", 0);
    os_pipe(t, n);
    bad_set = vp_pick(-1, 1);
    plain = vp_pick(0, 2);
    if (plain == 1) os_fault(vp_pick(0, NFAULT));
    if (plain == 2) vp_fail_at = vp_pick(0, 2);
    rc = u_env_init(p, "dir/f");
    vp_fail_at = -1;
    /* every line NAME=value under the prefix, in order */
    for (i = 0; i < n && k < nset; i = e + 1)
    {
        for (e = i; e < n && t[e] != '\n'; ++e) ;
        if (e - i < strlen(p) || memcmp(t + i, p, strlen(p)) != 0) continue;
        for (j = i; j < e && t[j] != '='; ++j) ;
        if (j == e) continue;
        VP_ASSERT(strlen(name[k]) == j - i && memcmp(name[k], t + i, j - i) == 0, "the variable written is set");
        VP_ASSERT(strlen(val[k]) == e - j - 1 && memcmp(val[k], t + j + 1, e - j - 1) == 0, "to the value written");
        ++k;
    }
    VP_ASSERT(k == nset, "nothing else is set");
    if (rc == 0)
    {
        for (; i < n; i = e + 1)
        {
            for (e = i; e < n && t[e] != '\n'; ++e) ;
            if (e - i < strlen(p) || memcmp(t + i, p, strlen(p)) != 0) continue;
            VP_ASSERT(memchr(t + i, '=', e - i) == NULL, "every variable written is set");
        }
        VP_ASSERT(same_file(sourced(os_command(), OS_NAME - 1), "dir/f"), "from the file given");
    }
    else VP_ASSERT(os_faulted() || plain == 2 || bad_set == nset, "a load fails only for want of memory or system services");
    VP_ASSERT(os_open_files() == 0, "no stream is left open");
    VP_ASSERT(vp_live == 0, "every block is released");
    return rc != 0;
}
#endif
