/* the test runner over every dependency graph, outcome and order of termination */
#include "vp.h"
#include <stdio.h>
#include <stdarg.h>
#include <signal.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/utsname.h>
#include <u/libu.h>
#include <toolbox/test.h>

#ifndef NC
  #define NC 3          /* cases, at most 4 */
#endif
#ifndef NS
  #define NS 1          /* suites, at most 3 */
#endif
#ifndef SANDBOX
  #define SANDBOX 1
#endif
enum { NOTRUN, PASS, FAIL, ODD, CRASH, LOST, RUNNING };
static const char *cname[] = { "a", "bb", "c c", "dX" }, *sname[] = { "S", "T1", "U" };

/* what a child process tells: the case it ran and how that ended */
static struct shm { int what, how, code, sig; } *G;
static int suite[NC], dep[NC][NC], sdep[NS][NS], bad;          /* dep[i][j]: i depends on j */
static int real[NC], runs[NC], nforks, nfailed, forkfault, outstanding, inchild, intr, interrupted, lose, maxpar, foreign, late;
static struct { int live, what, how, status; } pid[NC + 1];
static void (*handler) (int);
static char out[2048]; static size_t nout; static int opened, report;

static int odd (int rc) { return rc == 0 ? PASS : rc == 1 ? FAIL : ODD; }

/* a case may start: it did not yet, and what it depends on passed */
static void starts (int c)
{
    int j;
    VP_ASSERT(runs[c]++ == 0, "each case is run once");
    VP_ASSERT(!interrupted, "no case is started after an interruption");
    for (j = 0; j < NC; ++j)
    {
        if (suite[j] == suite[c] && dep[c][j])
            VP_ASSERT(real[j] == PASS, "a case is run after the ones it depends on, passed");
        if (suite[j] != suite[c] && sdep[suite[c]][suite[j]])
            VP_ASSERT(real[j] == PASS, "a suite is run after the ones it depends on, passed");
    }
}
static int run (int c)
{
    int rc;
    if (!SANDBOX) starts(c);
    if (!SANDBOX && intr && vp_bool()) { intr = 0; late = 1; handler(SIGINT); }
    if (inchild) G->what = c;
#ifdef KINDS
    switch (vp_pick(0, inchild ? KINDS : KINDS - 1))
    {
        case 0: rc = 0; break;
        case 1: rc = 1; break;
        case 2: if (inchild) { rc = 0; G->sig = 11; vp_endchild(); } /* fall through */
        default: rc = vp_int(); VP_ASSUME(rc < 0 || rc > 1); break;
    }
#else
    rc = 0;
#endif
    if (inchild) G->how = odd(rc);
    if (!SANDBOX) real[c] = odd(rc);
    return rc;
}
static int case0 (u_test_case_t *tc) { return run(0); }
static int case1 (u_test_case_t *tc) { return run(1); }
static int case2 (u_test_case_t *tc) { return run(2); }
static int case3 (u_test_case_t *tc) { return run(3); }
static const u_test_f func[] = { case0, case1, case2, case3 };

pid_t vp_fork (void)
{
    int k;
    VP_ASSERT(SANDBOX, "serialized cases are not run in processes");
    if (nforks++ == forkfault) { ++nfailed; errno = EAGAIN; return -1; }
    if (maxpar > 0) VP_ASSERT(outstanding < maxpar, "no more cases than allowed run in parallel");
    G->what = -1; G->code = G->sig = 0;
    if (vp_child(G, sizeof *G) == 0) { inchild = 1; return 0; }
    VP_ASSERT(G->what >= 0, "a process runs a case");
    starts(G->what);
    for (k = 0; pid[k].live; ++k) ;
    ++outstanding;
    pid[k].live = 1; pid[k].what = G->what; pid[k].how = G->sig ? CRASH : G->how; pid[k].status = G->sig ? G->sig : (G->code & 0xff) << 8;
    real[G->what] = RUNNING;
    return 100 + k;
}
static pid_t reaped (pid_t p, int *st, struct rusage *ru)
{
    int k, n = 0, w;
    if (ru) memset(ru, 0, sizeof *ru);
    if (foreign && vp_bool()) { foreign = 0; if (st) *st = 0; return 99; }
    if (intr && vp_bool())
    {
        --intr;
        if (!interrupted && vp_bool()) { VP_ASSERT(handler != NULL, "interruptions are handled"); interrupted = 1; handler(SIGINT); }
        errno = EINTR; return -1;
    }
    if (lose && outstanding && vp_bool())
    {
        lose = 0;
        for (k = 0; k <= NC; ++k) if (pid[k].live) { pid[k].live = 0; real[pid[k].what] = LOST; }
        outstanding = 0;
    }
    if (outstanding == 0) { errno = ECHILD; return -1; }
    if (p == -1 || p == 0)
    {
#ifdef INORDER
        w = 0;
#else
        w = vp_pick(0, outstanding - 1);
#endif
        for (k = 0; ; ++k) if (pid[k].live && n++ == w) break;
    }
    else
    {
        k = p - 100;
        VP_ASSERT(k >= 0 && k <= NC, "harness: waiting for a wrong process");
        if (!pid[k].live) { errno = ECHILD; return -1; }
    }
    pid[k].live = 0; --outstanding;
    w = pid[k].what;
    real[w] = pid[k].how;
    if (st) *st = pid[k].status;
    return 100 + k;
}
pid_t vp_wait3 (int *st, int opt, struct rusage *ru) { VP_ASSERT(opt == 0, "harness: wait3 options"); return reaped(-1, st, ru); }
pid_t vp_wait4 (pid_t p, int *st, int opt, struct rusage *ru) { VP_ASSERT(opt == 0, "harness: wait4 options"); return reaped(p, st, ru); }
pid_t vp_waitpid (pid_t p, int *st, int opt) { VP_ASSERT(opt == 0, "harness: waitpid options"); return reaped(p, st, NULL); }
pid_t vp_wait (int *st) { return reaped(-1, st, NULL); }
int vp_kill (pid_t p, int sig)
{
    int k = p - 100;
    VP_ASSERT(k >= 0 && k <= NC && pid[k].live, "only running cases are killed");
    if (sig == SIGKILL) { pid[k].status = SIGKILL; pid[k].how = CRASH; }
    return 0;
}
static void finish (int rc, int exited);
void vp_exit (int code)
{
    if (inchild) { G->code = code; vp_endchild(); }
    finish(code, 1);
    vp_endchild();
}
void vp__exit (int code) { vp_exit(code); }
int vp_sigaction (int sig, const struct sigaction *n, struct sigaction *o)
{
    if (n && sig == SIGINT) handler = n->sa_handler;
    return 0;
}
int vp_sigemptyset (sigset_t *s) { return 0; }
time_t vp_time (time_t *t) { static time_t now = 1000; ++now; if (t) *t = now; return now; }
struct tm *vp_localtime (const time_t *t) { static struct tm m; return &m; }
size_t vp_strftime (char *b, size_t n, const char *f, const struct tm *m) { VP_ASSERT(n >= 80, "the room for a date"); strcpy(b, "now"); return 3; }
int vp_uname (struct utsname *u) { memset(u, 0, sizeof *u); strcpy(u->nodename, "n"); strcpy(u->sysname, "s"); strcpy(u->release, "r"); strcpy(u->machine, "m"); return 0; }
int vp_printf (const char *f, ...) { return 0; }
FILE *vp_fopen (const char *name, const char *mode)
{
    VP_ASSERT(strcmp(name, "rep") == 0 && mode[0] == 'w', "the report goes to the file asked for");
    VP_ASSERT(!opened, "one report at a time");
    opened = report = 1; nout = 0;
    return (FILE *) out;
}
int vp_fclose (FILE *fp) { VP_ASSERT(fp == (FILE *) out && opened, "only the report is closed"); opened = 0; return 0; }
int vp_vfprintf (FILE *fp, const char *f, va_list ap)
{
    int n;
    if (fp != (FILE *) out) return 0;
    VP_ASSERT(opened, "the report is written while open");
    n = vsnprintf(out + nout, sizeof out - nout, f, ap);
    VP_ASSERT(n >= 0 && (size_t) n < sizeof out - nout, "harness: report too long");
    nout += (size_t) n;
    return n;
}
int vp_fprintf (FILE *fp, const char *f, ...) { va_list ap; int n; va_start(ap, f); n = vp_vfprintf(fp, f, ap); va_end(ap); return n; }
static int put (FILE *fp, const char *f, ...) { va_list ap; int n; va_start(ap, f); n = vp_vfprintf(fp, f, ap); va_end(ap); return n; }
int vp_fputs (const char *s, FILE *fp) { return put(fp, "%s", s); }
int vp_fflush (FILE *fp) { return 0; }
int vp_ferror (FILE *fp) { return 0; }
int vp_fputc (int c, FILE *fp) { put(fp, "%c", c); return c; }
int vp_putc (int c, FILE *fp) { return vp_fputc(c, fp); }
size_t vp_fwrite (const void *b, size_t m, size_t n, FILE *fp) { size_t i; for (i = 0; i < m * n; ++i) vp_fputc(((const unsigned char *) b)[i], fp); return n; }
char *vp_optarg; int vp_optind = 1;
int vp_getopt (int ac, char *const av[], const char *opts)
{
    const char *o;
    if (vp_optind >= ac || av[vp_optind][0] != '-') return -1;
    o = strchr(opts, av[vp_optind++][1]);
    if (o == NULL) return '?';
    if (o[1] == ':') vp_optarg = av[vp_optind++];
    return *o;
}

/* ------------------------------------------------------------ the report */
static size_t at;
static int word (const char *w)         /* moves past the next occurrence */
{
    size_t l = strlen(w);
    for (; at + l <= nout; ++at)
        if (memcmp(out + at, w, l) == 0) { at += l; return 1; }
    return 0;
}
static int num (const char *label)
{
    int v = 0;
    VP_ASSERT(word(label), "the report has its counts");
    while (at < nout && (out[at] < '0' || out[at] > '9')) ++at;
    for (; at < nout && out[at] >= '0' && out[at] <= '9'; ++at) v = v * 10 + out[at] - '0';
    return v;
}
static const char *status_names[] = { "PASS", "FAIL", "ABRT", "SKIP" };
static int status (void)
{
    int i;
    for (i = 0; i < 4; ++i) if (at + 4 <= nout && memcmp(out + at, status_names[i], 4) == 0) { at += 4; return i; }
    VP_ASSERT(0, "the report tells a status");
    return 0;
}
/* "...[PASS] id\n" or id="id">...<status>PASS</status>, from 'at' on */
static int status_of (const char *id, int xml)
{
    char t[40];
    size_t i;
    if (xml)
    {
        strcpy(t, "id=\""); strcat(t, id); strcat(t, "\">");
        VP_ASSERT(word(t) && word("<status>"), "the report tells each case and suite");
        return status();
    }
    for (i = at; i < nout; ++i)
        if (out[i] == '[')
        {
            at = i + 1;
            if (at + 7 + strlen(id) <= nout && out[at + 4] == ']' && out[at + 5] == ' ' && memcmp(out + at + 6, id, strlen(id)) == 0 && out[at + 6 + strlen(id)] == '\n')
                return status();
        }
    VP_ASSERT(0, "the report tells each case and suite");
    return 0;
}
static void counts (const int *n, int xml, size_t from, const char *first)
{
    at = from;
    VP_ASSERT(num(first) == n[0] + n[1] + n[2] + n[3], "the total is counted");
    VP_ASSERT(num(xml ? "<passed>" : "Passed:") == n[0], "the passed are counted");
    VP_ASSERT(num(xml ? "<failed>" : "Failed:") == n[1], "the failed are counted");
    VP_ASSERT(num(xml ? "<aborted>" : "Aborted:") == n[2], "the aborted are counted");
    VP_ASSERT(num(xml ? "<skipped>" : "Skipped:") == n[3], "the skipped are counted");
}
static int xml;
static void finish (int rc, int exited)
{
    int i, j, s, st, cs, nrun = 0, spawn = 0, sfail[NS], n[4], ns[4] = { 0, 0, 0, 0 }, blocked;
    size_t from;

    for (i = 0; i < NC; ++i) nrun += runs[i];
    if (late)
    {
        VP_ASSERT(rc != 0, "an interrupted run does not succeed");
        return;
    }
    if (bad)
    {
        VP_ASSERT(rc != 0 && nrun == 0, "circular and unknown dependencies are refused");
        return;
    }
    if (interrupted)
    {
        VP_ASSERT(rc != 0, "an interrupted run does not succeed");
        for (i = 0; i <= NC; ++i) VP_ASSERT(!pid[i].live || pid[i].status == SIGKILL, "no case is left running by an interrupted run");
        return;
    }
    VP_ASSERT(!exited, "the runner returns");
    VP_ASSERT(outstanding == 0, "every case is waited for");
    VP_ASSERT(report && !opened, "the report is written and closed");

    for (s = 0; s < NS; ++s)
    {
        sfail[s] = 0;
        for (i = 0; i < NC; ++i) if (suite[i] == s && real[i] != PASS) sfail[s] = 1;
    }
    for (s = 0; s < NS; ++s)
    {
        at = 0;
        st = status_of(sname[s], xml);
        ++ns[st];
        VP_ASSERT((st == 0) == !sfail[s], "a suite is reported to pass if all of its cases did");
        from = at;
        memset(n, 0, sizeof n);
        for (i = 0; i < NC; ++i)
            if (suite[i] == s)
            {
                at = from;
                cs = status_of(cname[i], xml);
                ++n[cs];
                blocked = 0;
                for (j = 0; j < NC; ++j)
                    blocked |= suite[j] == s ? dep[i][j] & (real[j] != PASS) : sdep[s][suite[j]] & (real[j] != PASS);
                if (blocked) VP_ASSERT(cs == 3, "a case is skipped if what it depends on did not pass");
                else
                {
                    if (!runs[i]) ++spawn;
                    VP_ASSERT((cs == 0) == (real[i] == PASS), "a case is reported to pass if it did");
                    if (runs[i]) VP_ASSERT(cs != 3, "a case that was run is not reported as skipped");
                    if (real[i] == FAIL) VP_ASSERT(cs == 1, "a case that failed is reported so");
                    if (real[i] == CRASH || real[i] == LOST) VP_ASSERT(cs == 2, "a case that was aborted is reported so");
                }
            }
        counts(n, xml, xml ? from : from, xml ? "<total>" : "Number of test cases:");
    }
    counts(ns, xml, 0, xml ? "<total>" : "Number of test suites:");
    VP_ASSERT(spawn <= nfailed, "every case that can be run is run");
    VP_ASSERT((rc == 0) == (ns[0] == NS), "the run succeeds if all suites did");
}

/* a dependency cycle, by elimination */
static int cyclic (int n, int (*e)(int, int))
{
    int gone[4] = { 0, 0, 0, 0 }, i, j, k, b;
    for (k = 0; k < n; ++k)
        for (i = 0; i < n; ++i)
        {
            b = 0;
            for (j = 0; j < n; ++j) b |= e(i, j) && !gone[j];
            if (!b) gone[i] = 1;
        }
    for (i = 0; i < n; ++i) if (!gone[i]) return 1;
    return 0;
}
static int ce (int i, int j) { return suite[i] == suite[j] && dep[i][j]; }
static int se (int i, int j) { return sdep[i][j]; }

int vp_main (void)
{
    u_test_t *t = NULL;
    u_test_suite_t *s[NS];
    u_test_case_t *c[NC];
    char *av[8], par[2], *names[2];
    int ac = 0, i, j, k, e, dup, rc;

    G = vp_shared(sizeof *G);
    vp_use_allocator();
#ifdef OOM
    vp_fail_at = vp_pick(0, OOM);
    #define MAY(x)   do { if (x) { VP_ASSERT(vp_nalloc > vp_fail_at, "only a lack of memory is a failure"); goto out; } } while (0)
#else
    #define MAY(x)   do { VP_ASSERT((x) == 0, "suites, cases and dependencies are accepted"); } while (0)
#endif
    MAY(u_test_new("all", &t));
    (void) u_test_set_outfn(t, "rep");
    for (i = 0; i < NS; ++i) { MAY(u_test_suite_new(sname[i], &s[i])); MAY(u_test_suite_add(s[i], t)); }
    for (i = 0; i < NC; ++i)
    {
        suite[i] = SUITE(i);
#ifdef REGISTER
        MAY(u_test_case_register(cname[i], func[i], s[suite[i]]));
#else
        MAY(u_test_case_new(cname[i], func[i], &c[i])); MAY(u_test_case_add(c[i], s[suite[i]]));
#endif
    }

    /* dependencies between cases, any of them stated twice, and by any of two means */
#ifdef DUP
    dup = vp_pick(0, DUP);
#else
    dup = 0;
#endif
    for (e = i = 0; i < NC; ++i)
        for (j = 0; j < NC; ++j)
        {
            if (suite[i] != suite[j] || !(EDGE(i, j)) || !vp_pick(0, 1)) continue;
            dep[i][j] = 1; ++e;
            for (k = 0; k < (dup & 1) + 1; ++k)
            {
                rc = (dup >> 1 & 1) ^ (k & 1) ? u_test_case_dep_register(cname[j], c[i]) : u_test_case_depends_on(cname[i], cname[j], s[suite[i]]);
                MAY(rc);
            }
        }
    for (i = 0; i < NS; ++i)
        for (j = 0; j < NS; ++j)
        {
            if (!(SEDGE(i, j)) || !vp_pick(0, 1)) continue;
            sdep[i][j] = 1;
            for (k = 0; k < (dup & 1) + 1; ++k)
            {
                rc = (dup >> 1 & 1) ^ (k & 1) ? u_test_suite_dep_register(sname[j], s[i]) : u_test_suite_depends_on(sname[i], sname[j], t);
                MAY(rc);
            }
        }
    bad = cyclic(NC, ce) || cyclic(NS, se);
#ifdef UNKNOWN
    if (vp_pick(0, 1))
    {
        VP_ASSERT(u_test_case_depends_on("nobody", cname[0], s[suite[0]]) != 0, "no dependency for an unknown case");
        VP_ASSERT(u_test_case_depends_on(cname[0], "nobody", s[suite[0]]) == 0, "dependencies are accepted");
        bad = 1;
    }
#endif

    forkfault = vp_pick(-1, FORKF);
    intr = INTR; lose = LOSE; foreign = FOREIGN;
    av[ac++] = "prog";
    if (!SANDBOX) av[ac++] = "-s";
#ifdef PAR
    maxpar = vp_pick(0, PAR);
    par[0] = (char) ('0' + maxpar); par[1] = '\0';
    av[ac++] = "-p"; av[ac++] = par;
#else
    maxpar = U_TEST_MAX_PARALLEL;
#endif
#ifdef XML
    xml = vp_pick(0, 1);
    if (xml) { av[ac++] = "-f"; av[ac++] = "xml"; }
#endif
    av[ac] = NULL;
    (void) names;

    /* the runner may exit */
    if (vp_child(G, sizeof *G) == 0)
    {
        rc = u_test_run(ac, av, t);
        finish(rc, 0);
        u_test_free(t);
        VP_ASSERT(vp_live == 0, "nothing is left allocated");
        vp_endchild();
    }
    return 0;
out:
    u_test_free(t);
    VP_ASSERT(vp_live == 0, "nothing is left allocated");
    return 0;
}
