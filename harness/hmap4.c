#include "vp.h"
#include <u/libu.h>

/*
 * The full interface with the user's own release function, or nobody owning
 * anything: pairs put, moved from a map to another, deleted, while any
 * allocation may fail.  At each point every pair is in one place.
 */
#define N 5
#ifndef CLEAR
#define CLEAR 0
#endif
static unsigned char kb[N][2], vb[N];
static int freed[N], in[2][N], mine[N];
static u_hmap_o_t *O[N];
static u_hmap_t *M[2];
static int owns, over, pcy, cur;

static size_t hash (const void *k, size_t b) { unsigned char c = *(const unsigned char *) k; return c < 64 ? 0 : c < 128 ? 1 : b - 1; }
static int idof (const void *v)
{
    VP_ASSERT((const unsigned char *) v >= vb && (const unsigned char *) v < vb + N, "only what was put is there");
    return (int) ((const unsigned char *) v - vb);
}
static void ofree (u_hmap_o_t *o)
{
    int i = idof(u_hmap_o_get_val(o));
    VP_ASSERT(owns, "what the map does not own is not released");
    if (*(unsigned char *) u_hmap_o_get_key(o) != kb[i][0]) VP_ASSERT(0, "pairs are released whole");
    u_free(u_hmap_o_get_key(o));
    ++freed[i];
}
static int visit (const void *k, const void *v)
{
    int i = idof(v);
    if (((const unsigned char *) k)[0] != kb[i][0]) VP_ASSERT(0, "pairs stay together");
    ++in[cur][i];
    return 0;
}
static void look (void)
{
    int i, c;
    memset(in, 0, sizeof in);
    for (cur = 0; cur < 2; ++cur)
    {
        VP_ASSERT(u_hmap_foreach_keyval(M[cur], visit) == 0, "traversal");
        for (c = i = 0; i < N; ++i) { VP_ASSERT(in[cur][i] <= 1, "pairs are visited once"); c += in[cur][i]; }
        VP_ASSERT(u_hmap_count(M[cur]) == c, "count is the number of pairs");
        if (pcy != U_HMAP_PCY_NONE) VP_ASSERT(c <= 2, "a limited map does not exceed its limit");
    }
    for (i = 0; i < N; ++i)
    {
        VP_ASSERT(in[0][i] + in[1][i] + freed[i] <= 1, "pairs are in one place and not released while held");
        if (owns) VP_ASSERT(!O[i] || in[0][i] + in[1][i] + freed[i] + mine[i] == 1, "pairs that are nowhere were released or stayed with the caller");
    }
}
static int at (int m, unsigned char k) { int i; for (i = 0; i < N; ++i) if (in[m][i] && kb[i][0] == k) return i; return -1; }

static void put (int m, int i)
{
    u_hmap_o_t *old = (u_hmap_o_t *) 1;
    int rc, was, na = vp_nalloc, oom;
    kb[i][0] = vp_u8(); VP_ASSUME(kb[i][0]);
    was = at(m, kb[i][0]);
    O[i] = u_hmap_o_new(M[m], kb[i], vb + i);
    if (O[i] == NULL) { VP_ASSERT(vp_fail_at >= 0 && vp_nalloc > vp_fail_at, "objects are made"); return; }
    rc = u_hmap_put(M[m], O[i], &old);
    oom = vp_fail_at >= na && vp_fail_at < vp_nalloc;
    if (was >= 0 && !over)
    {
        VP_ASSERT(rc == U_HMAP_ERR_EXISTS || (oom && rc), "a present key is told apart");
        if (owns && rc == U_HMAP_ERR_EXISTS) VP_ASSERT(freed[i] == 1, "what is refused is released");
        else { mine[i] = 1; if (rc == U_HMAP_ERR_EXISTS) VP_ASSERT(old == O[was], "the pair in the way is shown"); }
    }
    else if (rc)
    {
        VP_ASSERT(oom && rc == U_HMAP_ERR_FAIL, "put fails only for want of memory");
        mine[i] = 1;
    }
    else if (was >= 0)
    {
        if (owns) VP_ASSERT(freed[was] == 1, "what is overwritten is released");
        else VP_ASSERT(old == O[was], "what is overwritten is handed back");
    }
    look();
    if (mine[i]) VP_ASSERT(!in[m][i] && !freed[i], "what is not taken stays with the caller");
    else VP_ASSERT(in[m][i] || rc, "what is put is there");
}

int vp_main (void)
{
    u_hmap_opts_t *opts = NULL, *o2 = NULL;
    u_hmap_o_t *o = (u_hmap_o_t *) 1;
    int i, rc, was[2][N], gone, wanted, na, oom;
    unsigned char k[2];
    vp_use_allocator();
    vp_fail_at = -1;
    owns = vp_bool(); over = vp_bool();
    VP_ASSERT(u_hmap_opts_new(&opts) == 0 && u_hmap_opts_new(&o2) == 0, "options");
    pcy = (int []) { U_HMAP_PCY_NONE, U_HMAP_PCY_FIFO, U_HMAP_PCY_LFU } [vp_pick(0, 2)];
    VP_ASSERT(u_hmap_opts_set_size(opts, 1) == 0 && u_hmap_opts_set_type(opts, vp_bool() ? U_HMAP_TYPE_LINEAR : U_HMAP_TYPE_CHAIN) == 0, "options");
    VP_ASSERT(u_hmap_opts_set_hashfunc(opts, hash) == 0 && u_hmap_opts_set_option(opts, U_HMAP_OPTS_HASH_STRONG) == 0, "options");
    VP_ASSERT((owns ? u_hmap_opts_set_option : u_hmap_opts_unset_option)(opts, U_HMAP_OPTS_OWNSDATA) == 0, "ownership");
    VP_ASSERT((over ? u_hmap_opts_unset_option : u_hmap_opts_set_option)(opts, U_HMAP_OPTS_NO_OVERWRITE) == 0, "overwrite");
    VP_ASSERT(u_hmap_opts_set_freefunc(opts, ofree) == 0, "free function");
    if (pcy != U_HMAP_PCY_NONE) VP_ASSERT(u_hmap_opts_set_policy(opts, pcy) == 0 && u_hmap_opts_set_max(opts, 2) == 0, "policy");
    VP_ASSERT(u_hmap_new(opts, &M[0]) == 0, "create");
    /* options are copied as a whole, and are nobody's but the caller's */
    VP_ASSERT(u_hmap_opts_copy(o2, opts) == 0, "options");
    u_hmap_opts_free(opts);
    VP_ASSERT(u_hmap_new(o2, &M[1]) == 0, "create");
    u_hmap_opts_free(o2);
    look();
    /* from here on memory may be short */
    vp_fail_at = vp_pick(-1, FAILS);
    if (vp_fail_at >= 0) vp_fail_at += vp_nalloc;
    for (i = 0; i < 3; ++i) put(i == 2, i);
#ifdef H_MOVE
    memcpy(was, in, sizeof in);
    na = vp_nalloc;
    rc = u_hmap_copy(M[1], M[0]);
    oom = vp_fail_at >= na && vp_fail_at < vp_nalloc;
    look();
    wanted = 0;
    for (i = 0; i < N; ++i)
        if (was[0][i] && !over) { int j; for (j = 0; j < N; ++j) wanted |= was[1][j] && kb[j][0] == kb[i][0]; }
    if (rc == 0)
    {
        VP_ASSERT(!oom && !wanted, "no success without memory, nor over what is not to be overwritten");
        VP_ASSERT(u_hmap_count(M[0]) == 0, "everything is moved");
        for (i = 0; i < N; ++i)
            if (was[0][i])
            {
                VP_ASSERT(in[1][i] || pcy != U_HMAP_PCY_NONE, "every pair is in the new map");
                if (in[1][i])
                    VP_ASSERT(u_hmap_get(M[1], kb[i], &o) == 0 && o == O[i], "under its key");
            }
    }
    else
    {
        VP_ASSERT(oom || wanted || pcy != U_HMAP_PCY_NONE, "copying fails for want of memory or on keys not to be overwritten");
        if (oom || pcy == U_HMAP_PCY_NONE)
        for (i = 0; i < N; ++i)
            if (was[0][i] && !in[0][i] && !in[1][i])
            {
                /* it was refused, or discarded by the limited map */
                int j; gone = 0;
                for (j = 0; j < N; ++j) gone |= was[1][j] && kb[j][0] == kb[i][0];
                VP_ASSERT((gone && !over) || pcy != U_HMAP_PCY_NONE, "no pair is lost by a failed copy");
                if (pcy != U_HMAP_PCY_NONE && !(gone && !over))
                    VP_ASSERT(u_hmap_count(M[1]) >= 1, "discarding is for making room");
            }
    }
#else
    k[0] = vp_u8(); k[1] = 0; VP_ASSUME(k[0]);
    i = at(0, k[0]);
    rc = u_hmap_del(M[0], k, &o);
    VP_ASSERT((rc == 0) == (i >= 0), "del finds what is there");
    if (i >= 0) { if (owns) VP_ASSERT(freed[i] == 1, "what is deleted is released"); else VP_ASSERT(o == O[i], "what is deleted is handed back"); }
    look();
    put(0, 3);
    if (CLEAR && vp_bool()) { u_hmap_clear(M[0]); look(); VP_ASSERT(u_hmap_count(M[0]) == 0, "clear"); put(0, 4); }
    (void) was; (void) gone; (void) wanted; (void) na; (void) oom;
#endif
    /* both maps still work: whatever they hold is found */
    look();
    for (i = 0; i < N; ++i)
        for (cur = 0; cur < 2; ++cur)
            if (in[cur][i]) VP_ASSERT(u_hmap_get(M[cur], kb[i], &o) == 0 && o == O[i], "what is held is found");
    u_hmap_free(M[0]);
    u_hmap_free(M[1]);
    for (i = 0; i < N; ++i)
        if (O[i])
        {
            VP_ASSERT(freed[i] == (owns && !mine[i]), "every pair the maps own is released once");
            if (owns && mine[i]) { u_free(u_hmap_o_get_key(O[i])); u_hmap_o_free(O[i]); }
            if (!owns) u_hmap_o_free(O[i]);
        }
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
