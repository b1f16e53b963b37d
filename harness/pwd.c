/* password databases: who authenticates, against which text */
#include "vp.h"
#include <stdio.h>
#include <time.h>
#include <u/libu.h>
#include <toolbox/pwd.h>
#ifdef VP_OS
#include "vp_os.h"
#endif
#ifndef TMAX
#define TMAX 64
#endif

/* one version of the database */
typedef struct { unsigned char t[TMAX + 1]; size_t n; } text;
static text V[2];
static int cur;             /* the version a reader sees */
static long stamp[2];
static size_t pos; static int opened, open_bad, load_bad, loads, opens;

#ifndef VP_OS
static int t_open (const char *uri, void **ph)
{
    VP_ASSERT(strcmp(uri, "db") == 0, "the database named is opened");
    if (opens++ == open_bad) return ~0;
    VP_ASSERT(opened == 0, "the database is opened once at a time");
    ++opened; pos = 0; *ph = &V[cur];
    return 0;
}
static void t_close (void *h) { VP_ASSERT(opened == 1 && h == &V[cur], "what was opened is closed"); --opened; }
/* fgets() over the text */
static char *t_load (char *s, int size, void *h)
{
    int k = 0;
    VP_ASSERT(h == &V[cur] && opened, "only an open database is read");
    VP_ASSERT(size > 1, "there is room for a line");
    if (pos >= V[cur].n) return NULL;
    while (k < size - 1 && pos < V[cur].n)
    {
        s[k] = (char) V[cur].t[pos++];
        if (s[k++] == '\n') break;
    }
    s[k] = '\0';
    return s;
}
static int t_notify (const char *uri, time_t last, time_t *pn)
{
    VP_ASSERT(strcmp(uri, "db") == 0, "the database named is watched");
    if (stamp[cur] == (long) last) return 0;
    *pn = (time_t) stamp[cur];
    return 1;
}
#endif

#ifdef HASH
static int t_hash (const char *s, size_t len, char out[])
{
    size_t i;
    VP_ASSERT(strlen(s) == len, "the whole password is hashed");
    memset(out, 'x', HASH);
  #ifdef HASHZ
    out[HASH] = '\0';
  #endif
    for (i = 0; i < len; ++i) out[i % HASH] = (char) ('a' + (((out[i % HASH] - 'a') + s[i] + (int) i) & 15));
    return 0;
}
#endif

/* does the text have a record of 'user' with 'pass'?  *has: records of that
 * user, *yes: those that match, *perhaps: those in lines too long to be
 * expected to be honoured */
static void look (const text *x, const char *user, const char *pass, int *has, int *yes, int *perhaps, const char *opq, int *popq)
{
    size_t i, e, a, b, c, ul = strlen(user), pl = strlen(pass);
    *has = *yes = *perhaps = 0; *popq = 0;
    for (i = 0; i < x->n; i = e + 1)
    {
        int same, m;
        for (e = i; e < x->n && x->t[e] != '\n'; ++e) ;
        if (e == i || x->t[i] == '#') continue;
        for (a = i; a < e && x->t[a] != ':'; ++a) ;
        if (a == e || a == i) continue;
        for (b = a + 1; b < e && x->t[b] != ':'; ++b) ;
        if (b == a + 1) continue;
        for (c = b + 1; c < e && x->t[c] != ':'; ++c) ;
        same = a - i == ul && memcmp(x->t + i, user, ul) == 0;
        if (!same) continue;
        m = b - a - 1 == pl && memcmp(x->t + a + 1, pass, pl) == 0;
        if (e - i > U_PWD_LINE_MAX - 2) { *perhaps += m; continue; }
        ++*has; *yes += m;
        if (m && opq != NULL && b < e && c - b - 1 == strlen(opq) && memcmp(x->t + b + 1, opq, c - b - 1) == 0) *popq = 1;
        if (m && opq == NULL && (b == e || c == b + 1)) *popq = 1;
    }
}

/* ask for a user, by the interface of choice, and compare with the text;
 * refusals are excused if an allocation failed meanwhile */
static int ask (u_pwd_t *p, const text *x, const char *user, const char *given)
{
    int excused = 0, rc, has, yes, perhaps, oq; const char *hashed = given; u_pwd_rec_t *r = NULL;
#ifdef HASH
    char h[HASH + 1]; h[HASH] = 0; t_hash(given, strlen(given), h); hashed = h;
#endif
#ifdef RETR
    if (RETR)
    {
        rc = u_pwd_retr(p, user, &r);
        excused = vp_fail_at >= 0 && vp_fail_at < vp_nalloc;
        if (rc == 0)
        {
            VP_ASSERT(r != NULL && strcmp(u_pwd_rec_get_user(r), user) == 0, "the record of the user asked for is given");
            look(x, user, u_pwd_rec_get_password(r), &has, &yes, &perhaps, u_pwd_rec_get_opaque(r), &oq);
            VP_ASSERT(yes + perhaps > 0, "with a password recorded for him");
            VP_ASSERT(oq || perhaps, "and the data recorded with it");
            if (!u_pwd_in_memory(p)) u_pwd_rec_free(p, r);
        }
        else
        {
            look(x, user, "", &has, &yes, &perhaps, NULL, &oq);
            VP_ASSERT(has == 0 || excused, "a recorded user is found");
        }
        return rc;
    }
#endif
    rc = u_pwd_auth_user(p, user, given);
    excused = vp_fail_at >= 0 && vp_fail_at < vp_nalloc;
    look(x, user, hashed, &has, &yes, &perhaps, NULL, &oq);
    if (rc == 0)
        VP_ASSERT(yes + perhaps > 0, "only a recorded user authenticates, with his own password");
    else
        VP_ASSERT(has == 0 || yes < has || excused, "a recorded user authenticates with his password");
    return rc;
}

static u_pwd_t *make (int mem, int notify)
{
    u_pwd_t *p = NULL; int rc;
#ifdef HASH
    u_pwd_hash_cb_t hf = t_hash; size_t hl = HASH;
#else
    u_pwd_hash_cb_t hf = NULL; size_t hl = 0;
#endif
#ifdef VP_OS
    (void) notify;
    rc = u_pwd_init_file("db", hf, hl, mem, &p);
#else
    rc = u_pwd_init("db", t_open, t_load, t_close, notify ? t_notify : NULL, hf, hl, mem, &p);
#endif
    if (rc == 0) VP_ASSERT(u_pwd_in_memory(p) == mem, "the caching asked for is in force");
    else VP_ASSERT(vp_fail_at >= 0, "a database is set up unless memory is exhausted");
    return rc ? NULL : p;
}

/* concrete names, arbitrary passwords: a record or a thing looking like one */
static void record (text *x, int kind)
{
    unsigned char *t = x->t; size_t n = x->n; int c;
    switch (kind)
    {
        case 0: break;
        case 1: t[n++] = 'a'; t[n++] = ':'; t[n++] = vp_u8(); t[n++] = '\n'; break;
        case 2: t[n++] = 'b'; t[n++] = ':'; t[n++] = vp_u8(); t[n++] = ':'; t[n++] = vp_u8(); t[n++] = '\n'; break;
        case 3: t[n++] = 'a'; t[n++] = ':'; t[n++] = ':'; t[n++] = vp_u8(); t[n++] = '\n'; break;
        case 4: t[n++] = '#'; t[n++] = 'a'; t[n++] = ':'; t[n++] = vp_u8(); t[n++] = '\n'; break;
        case 5: t[n++] = ':'; t[n++] = 'a'; t[n++] = ':'; t[n++] = vp_u8(); t[n++] = '\n'; break;
        case 6: t[n++] = '\n'; t[n++] = 'a'; t[n++] = '\n'; break;
        case 7: t[n++] = 'a'; t[n++] = 'b'; t[n++] = ':'; t[n++] = vp_u8(); t[n++] = vp_u8(); t[n++] = ':'; t[n++] = ':'; t[n++] = 'b'; break;
    }
    for (; x->n < n; ++x->n) { c = t[x->n]; VP_ASSUME(c != 0); }
}
static const char *who[] = { "a", "b", "ab", "#a", "", "\na" };

int vp_main (void)
{
    u_pwd_t *p; char u[8], w[300]; int rc = 0, bad = 0, i;
    vp_use_allocator();
    open_bad = load_bad = -1;
#if defined(H_LINES)
    /* any text, read anew for each request */
    V[0].n = vp_stra((char *) V[0].t, N, "ab:#\n");
    stamp[0] = 1;
    (void) vp_stra(u, 2, "ab:#"); (void) vp_stra(w, 2, "ab:");
    vp_fail_at = -1;
    if ((p = make(0, vp_bool())) == NULL) return 1;
    rc = ask(p, &V[0], u, w);
    u_pwd_term(p);
#elif defined(H_BYTES)
    /* a well-formed record of arbitrary bytes, with another around it */
    {
        size_t ul = (size_t) vp_pick(1, 2), pl = (size_t) vp_pick(1, 2), gl;
        if (vp_bool()) { memcpy(V[0].t, "c:d:e\n", 6); V[0].n = 6; }
        for (i = 0; i < (int) (ul + pl + 1); ++i)
        {
            unsigned char c = (unsigned) i == ul ? ':' : vp_u8();
            VP_ASSUME(c != 0 && c != '\n' && (c != ':' || (unsigned) i == ul));
            V[0].t[V[0].n++] = c;
        }
        if (vp_bool()) { memcpy(V[0].t + V[0].n, "\nf:g", 4); V[0].n += 4; }
        for (i = 0; i < (int) ul; ++i) { u[i] = (char) vp_u8(); VP_ASSUME(u[i] != 0); }
        u[ul] = 0;
        gl = (size_t) vp_pick((int) pl - 1, (int) pl + 1);
        for (i = 0; i < (int) gl; ++i) { w[i] = (char) vp_u8(); VP_ASSUME(w[i] != 0); }
        w[gl] = 0;
        if ((p = make(0, 1)) == NULL) return 1;
        rc = ask(p, &V[0], u, w);
        u_pwd_term(p);
    }
#elif defined(H_LONG)
    {
        /* lines around the limit; what follows in the same line looks like a record */
        static const int len[] = { 252, 253, 254, 255, 256, 257, 258, 508, 509, 510, 511, 512 };
        int l = len[vp_pick(0, 11)], mem = vp_bool(), at = vp_pick(0, 3), big, pl;
        unsigned char *t = V[0].t;
        memset(t, 'p', (size_t) l);
        t[0] = 'a'; t[1] = ':';
        if (at == 0) t[0] = '#';
        if (l > 260) { memcpy(t + 255, at < 2 ? "b:q" : "\x01:q", 3); if (at == 2) t[255] = '#'; }
        else if (at > 1) t[l - at] = ':';
        big = l;
        V[0].n = (size_t) l;
        if (vp_bool()) { memcpy(t + V[0].n, "\nb:r", 4); V[0].n += 4; }
        stamp[0] = 1;
        if ((p = make(mem, vp_bool())) == NULL) return 1;
        i = vp_pick(0, 3);
        pl = big - 2;
        if (i == 0) { memset(w, 'p', 299); w[pl < 299 ? pl : 299] = 0; strcpy(u, "a"); }
        else if (i == 1) { memset(w, 'p', 299); w[253] = 0; strcpy(u, "a"); }
        else if (i == 2) { w[0] = (char) vp_u8(); VP_ASSUME(w[0] != 0); w[1] = 0; strcpy(u, "b"); }
        else { memset(w, 'p', 299); w[299] = 0; strcpy(u, "a"); }
        if (i == 2 && l > 260 && vp_bool()) { memset(w + 1, 'p', 299); w[l - 257] = 0; }
        rc = ask(p, &V[0], u, w);
        u_pwd_term(p);
    }
#elif defined(H_MEM)
    /* a cached database that changes and fails to load */
    {
        int mem = vp_pick(0, 1), notify = vp_pick(0, 1), k, old = -1;
        #ifdef KMIN
        for (i = 0; i < NREC; ++i) record(&V[0], vp_pick(KMIN, 2));
#else
        for (i = 0; i < NREC; ++i) record(&V[0], vp_pick(0, 7));
#endif
        stamp[0] = 1;
        if (notify && vp_bool()) { record(&V[1], vp_pick(1, 2)); if (NFAIL) record(&V[1], 2); stamp[1] = 2; }
        else { V[1] = V[0]; stamp[1] = 1; }
        if ((p = make(mem, notify)) == NULL) return 1;
        w[0] = (char) vp_u8(); w[1] = 0;
        if (vp_bool()) { w[1] = (char) vp_u8(); w[2] = 0; }
        k = NFAIL ? vp_pick(0, 2) : 0;
        if (k == 1) bad = 1, open_bad = vp_pick(0, 1);
        if (k == 2) bad = 1, vp_fail_at = vp_nalloc + vp_pick(0, NFAIL);
        strcpy(u, who[vp_pick(0, NWHO - 1)]);
        /* version 0, version 1, version 1 again with nothing in the way */
        for (i = 0; i < 3; ++i)
        {
            int o = opens, a = vp_nalloc, f, hit;
            cur = i > 0;
            if (i == 2) { open_bad = vp_fail_at = -1; }
            f = vp_fail_at; hit = 0;
            rc = 0;
            /* what a failed reload leaves in force is the version loaded last */
            if (bad && i < 2)
            {
                int has, yes, perhaps, oq, r2;
                r2 = u_pwd_auth_user(p, u, w);
                hit = (open_bad >= o && open_bad < opens) || (f >= a && f < vp_nalloc);
                if (!hit) old = cur;
                if (r2 == 0)
                {
                    const text *in = !hit || !mem ? &V[cur] : old >= 0 ? &V[old] : NULL;
                    VP_ASSERT(in != NULL, "nobody authenticates against a database that was never loaded");
                    look(in, u, w, &has, &yes, &perhaps, NULL, &oq);
                    VP_ASSERT(yes > 0, "only a recorded user authenticates, whatever failed");
                }
                else if (!hit || (mem && old >= 0))
                {
                    look(!hit ? &V[cur] : &V[old], u, w, &has, &yes, &perhaps, NULL, &oq);
                    VP_ASSERT(has == 0 || yes < has, "a failed reload takes nothing away");
                }
            }
            else ask(p, &V[mem && !notify ? 0 : cur], u, w);
            if (!mem || !notify) old = cur;
            if (!notify && mem) { V[1] = V[0]; }
        }
        u_pwd_term(p);
    }
#elif defined(H_FILE)
    {
        int mem = vp_pick(0, 1), back = vp_pick(0, 1), k, old = -1, hit, has, yes, perhaps, oq, r2; long c0;
        os_reset();
        record(&V[0], 2); record(&V[0], vp_pick(1, 2));
        record(&V[1], vp_pick(0, 1)); record(&V[1], 1);
        os_put("db", V[0].t, V[0].n); os_mtime("db", 5);
        if ((p = make(mem, 1)) == NULL) return 1;
        w[0] = (char) vp_u8(); w[1] = 0;
        VP_ASSUME(w[0] != 0);
        strcpy(u, who[vp_pick(0, 1)]);
        if ((k = vp_pick(-1, NFAULT)) >= 0) os_fault(k);
        for (i = 0; i < 3; ++i)
        {
            cur = i > 0;
            if (i == 1) { os_put("db", V[1].t, V[1].n); os_mtime("db", back ? 3 : 7); }
            if (i == 2) os_fault(-1);
            c0 = os_faulted();
            r2 = u_pwd_auth_user(p, u, w);
            hit = os_faulted() != c0;
            if (!hit) old = cur;
            if (r2 == 0)
            {
                /* a failing fclose() spoils nothing */
                int ok = 0;
                look(&V[cur], u, w, &has, &yes, &perhaps, NULL, &oq);
                ok = yes > 0;
                if (hit && mem && old >= 0) { look(&V[old], u, w, &has, &yes, &perhaps, NULL, &oq); ok |= yes > 0; }
                VP_ASSERT(ok, "only a recorded user authenticates, whatever failed");
            }
            else if (!hit)
            {
                look(&V[cur], u, w, &has, &yes, &perhaps, NULL, &oq);
                VP_ASSERT(has == 0 || yes < has, "a recorded user authenticates with his password");
            }
            else if (mem && old >= 0)
            {
                int h1, y1;
                look(&V[old], u, w, &h1, &y1, &perhaps, NULL, &oq);
                look(&V[cur], u, w, &has, &yes, &perhaps, NULL, &oq);
                VP_ASSERT(h1 == 0 || y1 < h1 || has == 0 || yes < has, "a failed reload takes nothing away");
            }
            VP_ASSERT(os_open_files() == 0, "the file is closed");
            if (!mem) old = cur;
        }
        u_pwd_term(p);
    }
#elif defined(H_OOM)
    record(&V[0], vp_pick(1, 2)); record(&V[0], vp_pick(1, 7)); stamp[0] = 1;
    vp_fail_at = vp_pick(0, NFAIL);
    {
        int mem = vp_bool();
        w[0] = (char) vp_u8(); w[1] = 0; VP_ASSUME(w[0] != 0);
        if ((p = make(mem, vp_bool())) == NULL) { VP_ASSERT(vp_live == 0, "every block is released"); return 1; }
        rc = ask(p, &V[0], "a", w);
        vp_fail_at = -1;
        rc = ask(p, &V[0], "a", w);
        u_pwd_term(p);
    }
#endif
    (void) rc; (void) bad;
#ifndef VP_OS
    VP_ASSERT(opened == 0, "the database is closed");
#endif
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
