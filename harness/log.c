#include "vp.h"
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <syslog.h>
#include <u/libu.h>

int facility = 0;
static char got[4200];
static int ngot, pri = -1, nwarn, locks, unlocks, held, nfail, ncall, herr;
static int token;

int vp_getpid (void) { return 4321; }
char *vp_strerror_r (int e, char *b, size_t n) { (void) b; (void) n; return e == EIO ? "Input/output error" : "?"; }
void vp_vsyslog (int p, const char *fmt, va_list ap) { ++ngot; pri = p; VP_ASSERT(vsnprintf(got, sizeof got, fmt, ap) < (int) sizeof got, "model"); if (herr) errno = herr; }
void vp_syslog (int p, const char *fmt, ...) { (void) p; (void) fmt; ++nwarn; }
int vp_vfprintf (FILE *fp, const char *fmt, va_list ap)
{
    VP_ASSERT(fp == stderr, "the console is the standard error");
    if (herr) errno = herr;
    if (ncall++ == nfail) return -1;
    VP_ASSERT(vsnprintf(got + strlen(got), sizeof got - strlen(got), fmt, ap) >= 0, "model");
    return 1;
}
int vp_fprintf (FILE *fp, const char *fmt, ...) { va_list ap; int rc; va_start(ap, fmt); rc = vp_vfprintf(fp, fmt, ap); va_end(ap); return rc; }
static int lock (void *a) { VP_ASSERT(a == &token && !held, "lock"); held = 1; ++locks; return 0; }
static int unlock (void *a) { VP_ASSERT(a == &token && held, "unlock"); held = 0; ++unlocks; return 0; }
static int hook (void *a, int lev, const char *s) { VP_ASSERT(a == &token, "the hook's argument"); VP_ASSERT(held, "under the lock"); ++ngot; pri = lev; VP_ASSERT(strlen(s) < U_MAX_LOG_LENGTH, "within the limit"); strcpy(got, s); if (herr) errno = herr; return 0; }

int vp_main (void)
{
    static const char *lab[] = { "emg", "alr", "crt", "err", "wrn", "ntc", "inf", "dbg", "unk" };
    static char m[1200], want[1400];
    int lev, ctx, err, hooked, rc, e, k;
    size_t n, len;
    u_log_hook_t old = hook; void *olda = &k;
    err = vp_bool() ? EIO : 0;
    herr = vp_bool() ? EPIPE : 0;
    /* a few arbitrary characters, then a filling */
    len = vp_str(m, 2);
#if defined(EDGE)
    n = (size_t) vp_pick(U_MAX_LOG_LENGTH - 70, U_MAX_LOG_LENGTH + 3);
    VP_ASSUME(len == 2);
    memset(m + len, 'x', n - len); m[n] = '\0';
#else
    n = len;
#endif
    nfail = -1;
    e = errno = vp_int();
#if defined(H_CONSOLE)
    (void) lab; (void) lev; (void) ctx; (void) hooked; (void) old; (void) olda; (void) k;
    nfail = vp_pick(-1, 0);
    rc = u_console_write_ex(err, "f.c", 12, "fn", "%s", m);
    VP_ASSERT(errno == e, "the caller's error indicator survives");
    VP_ASSERT((rc == 0) == (nfail < 0), "reported");
    strcpy(want, m);
    if (err) strcat(want, " [errno: 5, Input/output error]");
    strcat(want, "\n");
    VP_ASSERT(strcmp(got, rc ? "" : want) == 0, "the message, and nothing else");
#else
    lev = vp_pick(0, 8); ctx = vp_bool(); hooked = vp_bool();
    u_log_set_lock(lock, &token); u_log_set_unlock(unlock, &token);
    if (hooked)
    {
        u_log_set_hook(hook, &token, &old, &olda);
        VP_ASSERT(old == NULL && olda == NULL, "no hook before");
    }
    errno = e;
    rc = u_log_write_ex(LOG_LOCAL3, lev, ctx ? LOG_WRITE_FLAG_CTX : LOG_WRITE_FLAG_NONE, err, "f.c", 12, "fn", "%s", m);
    VP_ASSERT(errno == e, "the caller's error indicator survives");
    VP_ASSERT(locks == unlocks && !held, "unlocked");
    strcpy(want, "["); strcat(want, lab[lev]); strcat(want, "][4321:");
    strcat(want, ctx ? "f.c:12:fn] " : "::] ");
    strcat(want, m); strcat(want, " ");
    if (err) strcat(want, "[errno: 5, Input/output error]");
    if (n >= U_MAX_LOG_LENGTH || (hooked && strlen(want) >= U_MAX_LOG_LENGTH))
        VP_ASSERT(ngot == 0 && rc != 0, "a message beyond the limit is not delivered, and this is reported");
    else
    {
        VP_ASSERT(rc == 0 && ngot == 1, "delivered once");
        VP_ASSERT(pri == (hooked ? lev : (LOG_LOCAL3 | lev)), "with its severity");
        VP_ASSERT(strcmp(got, want) == 0, "whole");
    }
    u_log_set_hook(NULL, NULL, &old, &olda);
    VP_ASSERT(old == (hooked ? hook : NULL) && (!hooked || olda == &token), "the hook in place is returned");
    /* without it, messages go to the system */
    ngot = 0;
    VP_ASSERT(u_log_write_ex(LOG_USER, LOG_ERR, 0, 0, "f.c", 12, "fn", "%d", 5) == 0 && ngot == 1 && pri == (LOG_USER | LOG_ERR), "no hook any more");
    VP_ASSERT(strcmp(got, "[err][4321:::] 5 ") == 0, "whole");
#endif
    return 0;
}
