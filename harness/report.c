/* the report of a run: what it holds, where it goes, and what happens when it can't be written */
#include "vp.h"
#include <stdio.h>
#include <stdarg.h>
#include <signal.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/utsname.h>
#include <u/libu.h>
#include <toolbox/test.h>

#ifndef NLEN
  #define NLEN 1
#endif
#ifndef NW
  #define NW -1
#endif
#ifndef NRES
  #define NRES 2
#endif
#define NC 3
#define NS 2
static const int suite[NC] = { 0, 0, 1 };
static char tname[8] = "all", sname[NS][8] = { "S", "T" }, cname[NC][8] = { "a", "b", "c" };
static u_test_case_t *c[NC]; static u_test_suite_t *s[NS]; static u_test_t *t;
static int res[NC], dep;        /* dep: 1: the second suite depends on the first, 2: the second case on the first */
static const char *const st_of[] = { "PASS", "FAIL", "ABRT", "SKIP" };
static int case_st (int i) { return (dep == 1 && i == 2 && (res[0] || res[1])) || (dep == 2 && i == 1 && res[0]) ? 3 : res[i]; }
static int suite_st (int i) { int j; for (j = 0; j < NC; ++j) if (suite[j] == i && case_st(j)) return dep == 1 && i == 1 && case_st(2) == 3 ? 3 : 1; return 0; }
static char out[3072]; static size_t nout;
static int opened, nopened, nclosed, dash, err, fault, hit, nwrite, ncb, custom;
static char outfn[4300], want[4300]; static int badfn;
static FILE *rep;

/* what isn't called without processes */
pid_t vp_fork (void) { VP_ASSERT(0, "no processes"); return -1; }
pid_t vp_wait3 (int *st, int opt, struct rusage *ru) { errno = ECHILD; return -1; }
pid_t vp_wait4 (pid_t p, int *st, int opt, struct rusage *ru) { errno = ECHILD; return -1; }
pid_t vp_waitpid (pid_t p, int *st, int opt) { errno = ECHILD; return -1; }
pid_t vp_wait (int *st) { errno = ECHILD; return -1; }
int vp_kill (pid_t p, int sig) { VP_ASSERT(0, "no processes"); return 0; }
void vp_exit (int code)
{
    VP_ASSERT(badfn && code != 0 && nopened == 0, "only nonsense ends the program");
    VP_ASSUME(0);
}
void vp__exit (int code) { vp_exit(code); }
int vp_sigaction (int sig, const struct sigaction *n, struct sigaction *o) { return 0; }
int vp_sigemptyset (sigset_t *q) { return 0; }
time_t vp_time (time_t *p) { static time_t now = 1000; ++now; if (p) *p = now; return now; }
struct tm *vp_localtime (const time_t *p) { static struct tm m; return &m; }
size_t vp_strftime (char *b, size_t n, const char *f, const struct tm *m) { strcpy(b, "now"); return 3; }
int vp_uname (struct utsname *u) { memset(u, 0, sizeof *u); strcpy(u->nodename, "n"); strcpy(u->sysname, "<s>"); strcpy(u->release, "r&"); strcpy(u->machine, "m"); return 0; }
int vp_printf (const char *f, ...) { return 0; }

/* the file: kinds of faults are 0: opening, 1: flushing, 2: closing, 3 and up: a write; the first error stays */
static int ours (FILE *fp) { return rep != NULL && fp == rep; }
FILE *vp_fopen (const char *name, const char *mode)
{
    VP_ASSERT(strcmp(name, want) == 0 && mode[0] == 'w' && !badfn && !dash, "the report goes to the file asked for");
    VP_ASSERT(nopened++ == 0, "one report");
    if (fault == 0) { hit = 1; errno = EACCES; return NULL; }
    opened = 1;
    return rep = (FILE *) out;
}
int vp_fclose (FILE *fp)
{
    VP_ASSERT(!dash && ours(fp) && opened, "only the report is closed, once");
    opened = 0; ++nclosed;
    if (fault == 2) { hit = 1; errno = EIO; return EOF; }
    return 0;
}
int vp_fflush (FILE *fp)
{
    if (!ours(fp)) return 0;
    VP_ASSERT(opened, "the report is written while open");
    if (fault == 1) { hit = err = 1; errno = EIO; return EOF; }
    return 0;
}
int vp_ferror (FILE *fp) { if (ours(fp)) VP_ASSERT(opened, "the report is asked about while open"); return ours(fp) && err; }
static int put (FILE *fp, const char *b, size_t n)
{
    if (!ours(fp)) return (int) n;
    VP_ASSERT(opened, "the report is written while open");
    if (3 + nwrite++ == fault) { hit = err = 1; errno = ENOSPC; return -1; }
    VP_ASSERT(n < sizeof out - nout, "harness: report too long");
    memcpy(out + nout, b, n); nout += n;
    return (int) n;
}
int vp_vfprintf (FILE *fp, const char *f, va_list ap)
{
    static char b[1400]; int n;
    if (!ours(fp)) return 0;
    n = vsnprintf(b, sizeof b, f, ap);
    VP_ASSERT(n >= 0 && (size_t) n < sizeof b, "harness: line too long");
    return put(fp, b, (size_t) n);
}
int vp_fprintf (FILE *fp, const char *f, ...) { va_list ap; int n; va_start(ap, f); n = vp_vfprintf(fp, f, ap); va_end(ap); return n; }
int vp_fputs (const char *b, FILE *fp) { return put(fp, b, strlen(b)); }
int vp_fputc (int ch, FILE *fp) { char b = (char) ch; return put(fp, &b, 1) < 0 ? EOF : (unsigned char) ch; }
int vp_putc (int ch, FILE *fp) { return vp_fputc(ch, fp); }
size_t vp_fwrite (const void *b, size_t m, size_t n, FILE *fp) { return put(fp, b, m * n) < 0 ? 0 : n; }
char *vp_optarg; int vp_optind = 1;
int vp_getopt (int ac, char *const av[], const char *opts)
{
    const char *o;
    if (vp_optind >= ac || av[vp_optind][0] != '-') return -1;
    o = strchr(opts, av[vp_optind++][1]);
    if (o == NULL) return '?';
    if (o[1] == ':') vp_optarg = av[vp_optind++];
    return *o;
}

/* reporters of the program: what they are called with, in order */
static char calls[40]; static int ncalls;
static int called (FILE *fp, char k)
{
    VP_ASSERT(ours(fp) && opened, "reporters write to the report");
    VP_ASSERT(ncalls < 30, "reporters are called once");
    calls[ncalls++] = k;
    if (ncb-- == 0) { hit = 1; return ~0; }
    return vp_fprintf(fp, "%c", k) < 0;
}
static int t_rep (FILE *fp, u_test_t *x, u_test_rep_tag_t tag) { VP_ASSERT(x == t, "the run"); return called(fp, tag == U_TEST_REP_HEAD ? '<' : '>'); }
static int s_rep (FILE *fp, u_test_suite_t *x, u_test_rep_tag_t tag) { int i; for (i = 0; i < NS - 1 && x != s[i]; ++i) ; VP_ASSERT(x == s[i], "a suite"); return called(fp, (char) ((tag == U_TEST_REP_HEAD ? 'A' : 'X') + i)); }
static int c_rep (FILE *fp, u_test_case_t *x) { int i; for (i = 0; i < NC - 1 && x != c[i]; ++i) ; VP_ASSERT(x == c[i], "a case"); return called(fp, (char) ('0' + i)); }

static int run (int i, u_test_case_t *x)
{
    VP_ASSERT(x == c[i] && case_st(i) != 3, "a case is run with its own handle");
    return res[i] == 2 ? 77 : res[i] ? U_TEST_FAILURE : U_TEST_SUCCESS;
}
static int case0 (u_test_case_t *x) { return run(0, x); }
static int case1 (u_test_case_t *x) { return run(1, x); }
static int case2 (u_test_case_t *x) { return run(2, x); }
static const u_test_f func[] = { case0, case1, case2 };

/* ------------------------------------------------------------ a reader of XML */
static size_t at;
static int blank (char x) { return x == ' ' || x == '\t' || x == '\n'; }
static void skip (void) { while (at < nout && blank(out[at])) ++at; }
static int eat (const char *w) { size_t l = strlen(w); if (at + l > nout || memcmp(out + at, w, l)) return 0; at += l; return 1; }
/* a text up to the character 'end', decoded */
static void text (char *b, size_t max, char end)
{
    size_t n = 0;
    for (; at < nout && out[at] != end; ++n)
    {
        VP_ASSERT(n + 1 < max, "harness: text too long");
        VP_ASSERT(out[at] != '<', "no bare markup in a text");
        if (out[at] != '&') { b[n] = out[at++]; continue; }
        if (eat("&lt;")) b[n] = '<'; else if (eat("&gt;")) b[n] = '>'; else if (eat("&amp;")) b[n] = '&'; else if (eat("&quot;")) b[n] = '"'; else if (eat("&apos;")) b[n] = '\'';
        else { int v = 0; VP_ASSERT(eat("&#"), "no bare markup in a text"); while (at < nout && out[at] >= '0' && out[at] <= '9') v = v * 10 + out[at++] - '0'; VP_ASSERT(eat(";"), "no bare markup in a text"); b[n] = (char) v; }
    }
    VP_ASSERT(at < nout, "a text ends");
    b[n] = '\0';
}
static void leaf (const char *tag, char *b)     /* <tag>text</tag> */
{
    skip(); VP_ASSERT(eat("<") && eat(tag) && eat(">"), "an element follows");
    text(b, 64, '<'); VP_ASSERT(eat("</") && eat(tag) && eat(">"), "and is closed");
}
static void head (const char *tag, char *id)    /* <tag id="id"> */
{
    skip(); VP_ASSERT(eat("<") && eat(tag) && eat(" id=\""), "an element with a name follows");
    text(id, 64, '"'); VP_ASSERT(eat("\">"), "an element with a name follows");
}
static int peek (const char *w) { size_t a; int r; skip(); a = at; r = eat(w); at = a; return r; }
static void others (int *n, char *st)           /* elements of text only: the counts and others */
{
    static const char *cnt[] = { "total", "passed", "failed", "aborted", "skipped" };
    char tag[24], b[64]; int i; size_t l;
    for (skip(); peek("<") && !peek("</") && !peek("<test"); skip())
    {
        size_t a = at;
        for (++at, l = 0; at < nout && out[at] != '>' && l < sizeof tag - 1; ) tag[l++] = out[at++];
        tag[l] = '\0'; at = a;
        leaf(tag, b);
        for (i = 0; i < 5; ++i) if (!strcmp(tag, cnt[i])) n[i] = b[0] - '0';
        if (!strcmp(tag, "status")) strcpy(st, b);
        if (!strcmp(tag, "host")) VP_ASSERT(strcmp(b, "n - <s> r& m") == 0, "the host");
    }
}
static void read_xml (void)
{
    char id[64], st[64]; int n[5] = { -1, -1, -1, -1, -1 }, m[5], q[5], i, j, sf[4] = { 0, 0, 0, 0 }, cf[4], seen[NS] = { 0, 0 }, cseen[NC] = { 0, 0, 0 };
    for (i = 0; i < NS; ++i) sf[suite_st(i)]++;
    at = 0;
    VP_ASSERT(eat("<?xml"), "a declaration"); while (at < nout && !eat("?>")) ++at;
    head("test", id); VP_ASSERT(strcmp(id, tname) == 0, "the name of the run");
    others(n, st);
    VP_ASSERT(n[0] == NS && n[1] == sf[0] && n[2] == sf[1] && n[3] == sf[2] && n[4] == sf[3], "the counts of suites");
    while (peek("<test_suite"))
    {
        head("test_suite", id);
        for (i = 0; i < NS && strcmp(id, sname[i]); ++i) ;
        VP_ASSERT(i < NS && !seen[i], "each suite is told once"); seen[i] = 1;
        st[0] = '\0'; others(m, st);
        VP_ASSERT(strcmp(st, st_of[suite_st(i)]) == 0, "the outcome of a suite");
        memset(cf, 0, sizeof cf); for (j = 0; j < NC; ++j) if (suite[j] == i) cf[case_st(j)]++;
        VP_ASSERT(m[0] == (i ? 1 : 2) && m[1] == cf[0] && m[2] == cf[1] && m[3] == cf[2] && m[4] == cf[3], "the counts of cases");
        while (peek("<test_case"))
        {
            head("test_case", id);
            for (j = 0; j < NC && (suite[j] != i || strcmp(id, cname[j])); ++j) ;
            VP_ASSERT(j < NC && !cseen[j], "each case of a suite is told once"); cseen[j] = 1;
            st[0] = '\0'; others(q, st);
            VP_ASSERT(strcmp(st, st_of[case_st(j)]) == 0, "the outcome of a case");
            VP_ASSERT(eat("</test_case>"), "the case is closed");
        }
        skip(); VP_ASSERT(eat("</test_suite>"), "the suite is closed");
    }
    skip(); VP_ASSERT(eat("</test>"), "the run is closed"); skip();
    VP_ASSERT(at == nout, "nothing follows");
    for (i = 0; i < NS; ++i) VP_ASSERT(seen[i], "each suite is told");
    for (i = 0; i < NC; ++i) VP_ASSERT(cseen[i], "each case is told");
}
static int line (size_t from, const char *st, const char *id)  /* "[st] id" at the end of a line, from 'from' on, once */
{
    size_t i, l = strlen(id); int n = 0;
    for (i = from; i + 7 + l <= nout; ++i)
        if (out[i] == '[' && memcmp(out + i + 1, st, 4) == 0 && out[i + 5] == ']' && out[i + 6] == ' ' && memcmp(out + i + 7, id, l) == 0 && i + 7 + l < nout && out[i + 7 + l] == '\n') ++n;
    return n;
}
static void read_txt (void)
{
    int i;
    VP_ASSERT(nout > strlen(tname) && memcmp(out, tname, strlen(tname)) == 0, "the name of the run comes first");
    for (i = 0; i < NS; ++i)
        VP_ASSERT(line(0, st_of[suite_st(i)], sname[i]) == 1, "each suite is told once");
    for (i = 0; i < NC; ++i) VP_ASSERT(line(0, st_of[case_st(i)], cname[i]) == 1, "each case is told once");
}

int vp_main (void)
{
    char *av[8]; int ac = 0, i, rc, xml, k, pass = 1;
#ifndef VP_REPLAY
    static int so, se; stdout = (FILE *) &so; stderr = (FILE *) &se;
#endif
    vp_use_allocator();
    fault = ncb = -1;
    strcpy(want, "rep"); strcpy(outfn, "rep");
    xml = vp_pick(0, 1);
#if defined(H_FAULT)
    if (vp_bool()) { dash = 1; strcpy(outfn, "-"); rep = stdout; opened = 1; }
    custom = vp_bool();
    if (custom && vp_bool()) ncb = vp_pick(0, 9);
    else fault = vp_pick(-1, 3 + NW);
    if (dash) VP_ASSUME(fault != 0 && fault != 2);
#elif defined(H_FILE)
    {
        static const int len[] = { 1, 2, 3, 4094, 4095, 4096, 4200 };
        int l = len[vp_pick(0, 6)];
        memset(outfn, 'x', (size_t) l); outfn[l] = '\0';
        outfn[0] = (char) vp_u8(); VP_ASSUME(outfn[0] != '\0' && (l > 1 || outfn[0] != '-'));
        strcpy(want, outfn);
        badfn = l > 4095;
    }
#else
    {
        char *nm;
        k = vp_pick(0, 3);
        nm = k == 0 ? tname : k == 1 ? sname[0] : k == 2 ? cname[0] : cname[2];
        for (i = 0, k = vp_pick(1, NLEN); i < k; ++i) { nm[i] = (char) vp_u8(); VP_ASSUME(nm[i] >= ' ' && nm[i] != 127); }
        nm[i] = '\0';
        for (i = 0; i < NC; ++i) for (k = 0; k < NS; ++k) VP_ASSUME(strcmp(cname[i], sname[k]));
        for (i = 0; i < NC; ++i) for (k = 0; k < i; ++k) VP_ASSUME(strcmp(cname[i], cname[k]));
        VP_ASSUME(strcmp(sname[0], sname[1]));
    }
#endif
    VP_ASSERT(u_test_new(tname, &t) == 0, "a run");
#if defined(H_FILE)
    k = vp_bool();
    if (!k) { VP_ASSERT((u_test_set_outfn(t, outfn) == 0) == !badfn, "a name too long is refused"); if (badfn) { u_test_free(t); VP_ASSERT(vp_live == 0, "nothing is left"); return 0; } }
#else
    k = 0;
    VP_ASSERT(u_test_set_outfn(t, outfn) == 0, "a name for the report");
#endif
    for (i = 0; i < NS; ++i) VP_ASSERT(u_test_suite_new(sname[i], &s[i]) == 0 && u_test_suite_add(s[i], t) == 0, "suites");
    for (i = 0; i < NC; ++i)
    {
        VP_ASSERT(u_test_case_new(cname[i], func[i], &c[i]) == 0 && u_test_case_add(c[i], s[suite[i]]) == 0, "cases");
        res[i] = vp_pick(0, NRES); pass &= !res[i];
    }
    dep = vp_pick(0, 2);
    if (dep == 1) VP_ASSERT(u_test_suite_depends_on(sname[1], sname[0], t) == 0, "suites depend on suites");
    if (dep == 2) VP_ASSERT(u_test_case_depends_on(cname[1], cname[0], s[0]) == 0, "cases depend on cases");
    if (custom)
    {
        VP_ASSERT(u_test_set_u_test_rep(t, t_rep) == 0 && u_test_set_u_test_suite_rep(t, s_rep) == 0 && u_test_set_u_test_case_rep(t, c_rep) == 0, "reporters");
        VP_ASSERT(u_test_set_u_test_rep(t, NULL) != 0 && u_test_set_u_test_suite_rep(t, NULL) != 0 && u_test_set_u_test_case_rep(t, NULL) != 0, "no reporter");
    }
    av[ac++] = "prog"; av[ac++] = "-s";
    if (k) { av[ac++] = "-o"; av[ac++] = outfn; }
    if (!custom) { av[ac++] = "-f"; av[ac++] = xml ? "xml" : "txt"; }
    av[ac] = NULL;
    rc = u_test_run(ac, av, t);
    VP_ASSERT(!badfn, "a name too long is refused");
    VP_ASSERT(opened == dash && (dash || fault == 0 || nclosed == 1), "the report is closed, the standard output is not");
    if (hit) VP_ASSERT(rc != 0, "a report that can't be written is a failure");
    else
    {
        VP_ASSERT(dash || nopened == 1, "the report is written");
        VP_ASSERT((rc == 0) == pass, "the run succeeds if all cases do");
        if (custom)
        {
            int n = 0, j, o;
            VP_ASSERT(calls[n++] == '<', "the run comes first");
            for (j = 0; j < NS; ++j)
            {
                int left = 0;
                o = calls[n++] - 'A';
                VP_ASSERT(o == 0 || o == 1, "a suite starts");
                VP_ASSERT(j == 0 || o != calls[1] - 'A', "each suite comes once");
                for (i = 0; i < NC; ++i) left |= (suite[i] == o) << i;
                for (; left; ++n) { VP_ASSERT(calls[n] >= '0' && calls[n] < '0' + NC && left >> (calls[n] - '0') & 1, "the cases of a suite come within it, once"); left &= ~(1 << (calls[n] - '0')); }
                VP_ASSERT(calls[n++] == 'X' + o, "the suite ends");
            }
            VP_ASSERT(calls[n++] == '>' && n == ncalls, "the run comes last");
            VP_ASSERT(nout == (size_t) n && memcmp(out, calls, nout) == 0, "what reporters write is the report");
        }
        else if (xml) read_xml();
        else read_txt();
    }
    u_test_free(t);
    VP_ASSERT(vp_live == 0, "nothing is left allocated");
    return 0;
}
