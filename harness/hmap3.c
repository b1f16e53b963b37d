#include "vp.h"
#include <u/libu.h>

/*
 * Who owns what: keys and values given as pointers, strings or blocks, through
 * the easy or the full interface, while any allocation may fail.
 */
#define N (NOPS + 1)
static unsigned char freed[N][2];     /* times key/value i given as pointers were released */
static unsigned char kblk[N][3], vblk[N][3], keep[N][3];
static unsigned char K[N]; static size_t id[N], n;

static size_t hash (const void *k, size_t b) { unsigned char c = *(const unsigned char *) k; return c < 64 ? 0 : c < 128 ? 1 : b - 1; }
static int comp (const void *a, const void *b)
{
    return (int) *(const unsigned char *) a - (int) *(const unsigned char *) b;
}
static void kfree (const void *k) { VP_ASSERT((const unsigned char (*)[3]) k >= kblk && (const unsigned char (*)[3]) k < kblk + N, "key freed was put"); ++freed[((const unsigned char *) k - kblk[0]) / 3][0]; }
static void vfree (void *v) { VP_ASSERT((unsigned char (*)[3]) v >= vblk && (unsigned char (*)[3]) v < vblk + N, "value freed was put"); ++freed[((unsigned char *) v - vblk[0]) / 3][1]; }

static u_hmap_options_datatype_t kt, vt;
static size_t lookup (unsigned char k) { size_t i; for (i = 0; i < n && K[i] != k; ++i) ; return i; }

static void same (const void *v, size_t i)
{
    if (vt == U_HMAP_OPTS_DATATYPE_POINTER) VP_ASSERT(v == vblk[id[i]], "the pointer that was put");
    else
    {
        VP_ASSERT(v != vblk[id[i]], "a copy");
        VP_ASSERT(memcmp(v, keep[id[i]], vt == U_HMAP_OPTS_DATATYPE_STRING ? strlen((char *) keep[id[i]]) + 1 : 3) == 0, "copied value unaffected by what the caller does with his own");
    }
}

int vp_main (void)
{
    u_hmap_opts_t *opts = NULL;
    u_hmap_t *m = NULL;
    u_hmap_o_t *o;
    size_t i, at, lim;
    void *v;
    int easy, over, j, rc, fails, lin;
    unsigned char key[3];
    vp_use_allocator();
    easy = vp_pick(0, 1); over = vp_pick(0, 1); lin = vp_pick(0, 1);
    kt = easy ? U_HMAP_OPTS_DATATYPE_STRING : (u_hmap_options_datatype_t []) { U_HMAP_OPTS_DATATYPE_POINTER, U_HMAP_OPTS_DATATYPE_STRING, U_HMAP_OPTS_DATATYPE_OPAQUE } [vp_pick(0, 2)];
    vt = (u_hmap_options_datatype_t []) { U_HMAP_OPTS_DATATYPE_POINTER, U_HMAP_OPTS_DATATYPE_STRING, U_HMAP_OPTS_DATATYPE_OPAQUE } [vp_pick(0, 2)];
    vp_fail_at = vp_pick(-1, FAILS);
    fails = vp_fail_at >= 0;
    if (u_hmap_opts_new(&opts))
    {
        VP_ASSERT(fails && opts == NULL && vp_live == 0, "options only fail for want of memory");
        return 0;
    }
    VP_ASSERT(u_hmap_opts_set_size(opts, 1) == 0 && u_hmap_opts_set_type(opts, lin ? U_HMAP_TYPE_LINEAR : U_HMAP_TYPE_CHAIN) == 0, "options");
    VP_ASSERT(u_hmap_opts_set_hashfunc(opts, hash) == 0 && u_hmap_opts_set_compfunc(opts, comp) == 0 && u_hmap_opts_set_option(opts, U_HMAP_OPTS_HASH_STRONG) == 0, "options");
    if (over) VP_ASSERT(u_hmap_opts_unset_option(opts, U_HMAP_OPTS_NO_OVERWRITE) == 0, "options");
    if (!easy)
    {
        VP_ASSERT(u_hmap_opts_set_key_type(opts, kt) == 0, "key type");
        if (kt == U_HMAP_OPTS_DATATYPE_OPAQUE) VP_ASSERT(u_hmap_opts_set_key_sz(opts, 2) == 0, "key size");
        if (kt == U_HMAP_OPTS_DATATYPE_POINTER) VP_ASSERT(u_hmap_opts_set_key_freefunc(opts, kfree) == 0, "key free");
    }
    VP_ASSERT(u_hmap_opts_set_val_type(opts, vt) == 0, "value type");
    if (vt == U_HMAP_OPTS_DATATYPE_OPAQUE) VP_ASSERT(u_hmap_opts_set_val_sz(opts, 3) == 0, "value size");
    if (easy && vt == U_HMAP_OPTS_DATATYPE_POINTER)
    {
        m = (u_hmap_t *) 1;
        VP_ASSERT(u_hmap_easy_new(opts, &m) != 0, "pointer values require a free function (or its explicit absence)");
    }
    if (vt == U_HMAP_OPTS_DATATYPE_POINTER) VP_ASSERT(u_hmap_opts_set_val_freefunc(opts, vfree) == 0, "value free");
#ifdef PCY
    lim = 2;
    VP_ASSERT(u_hmap_opts_set_policy(opts, PCY) == 0 && u_hmap_opts_set_max(opts, (int) lim) == 0, "policy");
#else
    lim = 100;
#endif
    rc = (easy ? u_hmap_easy_new : u_hmap_new)(opts, &m);
    u_hmap_opts_free(opts);
    if (rc)
    {
        VP_ASSERT(fails && m == NULL && vp_live == 0, "creation only fails for want of memory, leaving nothing behind");
        return 0;
    }
    for (j = 0; j < NOPS; ++j)
    {
#ifdef PRE
        if (j < PRE)
        {
            key[0] = (unsigned char) (j * 37 + 5); key[1] = key[2] = 0;
            goto put;
        }
#endif
        key[0] = vp_u8(); key[1] = key[2] = 0;
        VP_ASSUME(key[0] != 0);
        at = lookup(key[0]);
        switch (vp_pick(0, 3))
        {
            case 0:
#ifdef PRE
            put: at = lookup(key[0]);
#endif
                for (i = 0; i < 3; ++i) { kblk[j][i] = key[i]; vblk[j][i] = keep[j][i] = i < 2 ? (unsigned char) (j * 16 + i + 1) : 0; }
                if (easy) rc = u_hmap_easy_put(m, (char *) kblk[j], vblk[j]);
                else
                {
                    o = u_hmap_o_new(m, kblk[j], vblk[j]);
                    if (o == NULL) { VP_ASSERT(fails, "objects are refused only for want of memory"); rc = U_HMAP_ERR_FAIL; }
                    else if ((rc = u_hmap_put(m, o, NULL)) != 0 && rc != U_HMAP_ERR_EXISTS)
                    {
                        /* not taken: still ours */
                        if (kt != U_HMAP_OPTS_DATATYPE_POINTER) vp_free(u_hmap_o_get_key(o));
                        if (vt != U_HMAP_OPTS_DATATYPE_POINTER) vp_free(u_hmap_o_get_val(o));
                        u_hmap_o_free(o);
                    }
                }
                if (kt != U_HMAP_OPTS_DATATYPE_POINTER) memset(kblk[j], 0xEE, 3);
                if (vt != U_HMAP_OPTS_DATATYPE_POINTER) memset(vblk[j], 0xEE, 3);
                if (rc == U_HMAP_ERR_EXISTS) VP_ASSERT(!over && at < n, "refused only if the key exists");
                else if (rc == 0)
                {
                    VP_ASSERT(over || at == n, "put must not overwrite");
                    if (at < n)
                    {
                        if (vt == U_HMAP_OPTS_DATATYPE_POINTER) VP_ASSERT(freed[id[at]][1] == 1, "overwritten value released");
                        id[at] = (size_t) j;
                    }
                    else
                    {
                        if (n == lim) { for (i = 1; i < n; ++i) { K[i - 1] = K[i]; id[i - 1] = id[i]; } --n; }
                        K[n] = key[0]; id[n] = (size_t) j; ++n;
                    }
#ifdef PCY
                    /* fifo order: the pair just put is the youngest */
                    { unsigned char k = key[0]; at = lookup(k); for (i = at + 1; i < n; ++i) { K[i - 1] = K[i]; id[i - 1] = id[i]; } K[n - 1] = k; id[n - 1] = (size_t) j; }
#endif
                }
                else
                {
                    VP_ASSERT(fails, "put fails only for want of memory");
                    VP_ASSERT(freed[j][1] == 0, "a value that was not taken stays with the caller");
                    if (vt == U_HMAP_OPTS_DATATYPE_POINTER) freed[j][1] = 2; /* nobody is to touch it any more */
#ifdef PCY
                    if (at == n && n == lim && u_hmap_count(m) < (ssize_t) n)
                        { for (i = 1; i < n; ++i) { K[i - 1] = K[i]; id[i - 1] = id[i]; } --n; }
#endif
                }
                break;
            case 1:
                if (easy) { v = u_hmap_easy_get(m, (char *) key); VP_ASSERT((v != NULL) == (at < n), "get finds what is there"); }
                else { o = NULL; rc = u_hmap_get(m, key, &o); VP_ASSERT((rc == 0) == (at < n), "get finds what is there"); v = rc ? NULL : u_hmap_o_get_val(o); }
                if (v) same(v, at);
                break;
            case 2:
                rc = easy ? u_hmap_easy_del(m, (char *) key) : u_hmap_del(m, key, NULL);
                VP_ASSERT((rc == 0) == (at < n), "del finds what is there");
                if (rc == 0)
                {
                    if (vt == U_HMAP_OPTS_DATATYPE_POINTER) VP_ASSERT(freed[id[at]][1] == 1, "deleted value released");
                    for (i = at + 1; i < n; ++i) { K[i - 1] = K[i]; id[i - 1] = id[i]; }
                    --n;
                }
                break;
            default:
                (easy ? u_hmap_easy_clear : u_hmap_clear)(m);
                for (i = 0; i < n; ++i) if (vt == U_HMAP_OPTS_DATATYPE_POINTER) VP_ASSERT(freed[id[i]][1] == 1, "cleared value released");
                n = 0;
                break;
        }
        VP_ASSERT(u_hmap_count(m) == (ssize_t) n, "count");
    }
    for (i = 0; i < n; ++i)
    {
        key[0] = K[i]; key[1] = 0;
        o = NULL;
        VP_ASSERT(u_hmap_get(m, key, &o) == 0, "what was put is there");
        same(u_hmap_o_get_val(o), i);
        VP_ASSERT(*(unsigned char *) u_hmap_o_get_key(o) == K[i], "under its key");
    }
    (easy ? u_hmap_easy_free : u_hmap_free)(m);
    for (i = 0; i < NOPS; ++i)
    {
        VP_ASSERT(freed[i][0] <= 1 && freed[i][1] <= 2, "released at most once");
        if (kt == U_HMAP_OPTS_DATATYPE_POINTER && kblk[i][0] && freed[i][1] != 2 && vt == U_HMAP_OPTS_DATATYPE_POINTER)
            VP_ASSERT(freed[i][0] == freed[i][1], "key and value are released together");
        if (vt == U_HMAP_OPTS_DATATYPE_POINTER && keep[i][0]) VP_ASSERT(freed[i][1] >= 1, "released in the end");
    }
    VP_ASSERT(vp_live == 0, "every copy is released");
    return 0;
}
