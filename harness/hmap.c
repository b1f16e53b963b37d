#include "vp.h"
#include <u/libu.h>

/*
 * Reference: a partial map from one-character keys to values.  Keys are
 * arbitrary characters; a strong hash that spreads them over few buckets (first,
 * second, last) makes both collisions and wrap-around happen.
 */
#define MAXN (PRE + NOPS + 1)
static unsigned char K[MAXN];
static size_t V[MAXN];               /* value in the map, by rank of insertion */
static long stamp[MAXN], uses[MAXN]; /* what the discard policies look at */
static u_hmap_o_t *O[MAXN];
static size_t n;
static long now;
static int owns, over, pcy;
static size_t max;

static unsigned char pool[MAXN + PRE + 1]; /* values point here */
static int freed[MAXN + PRE + 1];
static void vfree (void *v) { ++freed[(unsigned char *) v - pool]; }

#if defined(H_STRONG)
static size_t hash (const void *key, size_t buckets)
{
    switch (*(const unsigned char *) key >> 6)
    {
        case 0: return 0;
        case 1: return 1;
        default: return buckets - 1;
    }
}
#elif defined(H_WEAK)
static size_t hash (const void *key, size_t buckets) { return (*(const unsigned char *) key & 1) ? 0xf0000001u : 0; }
#endif

static int pcmp (void *a, void *b) { return (int) (*(unsigned char *) a >> 1) - (int) (*(unsigned char *) b >> 1); }

static size_t seen;
static int visit (const void *k, const void *v)
{
    size_t i;
    ++seen;
    for (i = 0; i < n; ++i)
        if (V[i] == (size_t) ((const unsigned char *) v - pool))
        {
            VP_ASSERT(K[i] == *(const unsigned char *) k && ((const char *) k)[1] == '\0', "value under the key it was put with");
            return 0;
        }
    VP_ASSERT(0, "only what was put and neither deleted nor discarded is there");
    return 1;
}
static int visit1 (const void *v) { ++seen; return 0; }
static int visit2 (const void *v, const void *a) { VP_ASSERT(a == &seen, "foreach passes its argument"); ++seen; return 0; }

static void check (u_hmap_t *m)
{
    VP_ASSERT(u_hmap_count(m) == (ssize_t) n, "count is the number of pairs");
    seen = 0;
    VP_ASSERT(u_hmap_foreach_keyval(m, visit) == 0, "foreach succeeds");
    VP_ASSERT(seen == n, "traversal visits every pair once");
    seen = 0;
    VP_ASSERT(u_hmap_foreach(m, visit1) == 0 && seen == n, "value traversal visits every pair once");
    seen = 0;
    VP_ASSERT(u_hmap_foreach_arg(m, visit2, &seen) == 0 && seen == n, "traversal with argument visits every pair once");
}

static void drop (size_t i)
{
    --n;
    K[i] = K[n]; V[i] = V[n]; stamp[i] = stamp[n]; uses[i] = uses[n]; O[i] = O[n];
}

/* any key (the empty string excepted), a split one if the hash is too hard */
static unsigned char anykey (void)
{
#ifdef KEYS
    static const char keys[] = KEYS;
    return (unsigned char) keys[vp_pick(0, sizeof keys - 2)];
#else
    unsigned char k = vp_u8();
    VP_ASSUME(k != 0);
    return k;
#endif
}

static size_t lookup (unsigned char k)
{
    size_t i;
    for (i = 0; i < n && K[i] != k; ++i) ;
    return i;
}

static size_t next;
static u_hmap_o_t *made[MAXN + PRE + 1]; /* objects the user is to dispose of */

/* may the policy discard pair i ? */
static int evictable (size_t i)
{
    size_t j;
    for (j = 0; j < n; ++j)
    {
        if ((pcy == U_HMAP_PCY_FIFO || pcy == U_HMAP_PCY_LRU) && stamp[j] < stamp[i]) return 0;
        if (pcy == U_HMAP_PCY_LFU && uses[j] < uses[i]) return 0;
        if (pcy == U_HMAP_PCY_CUSTOM && pcmp(pool + V[j], pool + V[i]) < 0) return 0;
    }
    return 1;
}

static void put (u_hmap_t *m, unsigned char k)
{
    unsigned char key[2];
    u_hmap_o_t *o, *old = (u_hmap_o_t *) -1;
    size_t id = next++, at = lookup(k), i;
    int rc;
    key[0] = k; key[1] = '\0';
#ifdef SYMVAL
    pool[id] = vp_u8();
#endif
    o = u_hmap_o_new(m, owns ? (void *) key : (void *) memcpy(malloc(2), key, 2), pool + id);
    VP_ASSERT(o != NULL, "object creation");
    VP_ASSERT(*(unsigned char *) u_hmap_o_get_key(o) == k && u_hmap_o_get_val(o) == pool + id, "object carries key and value");
    made[id] = o;
    rc = u_hmap_put(m, o, &old);
    if (at < n)
    {
        if (!over)
        {
            VP_ASSERT(rc == U_HMAP_ERR_EXISTS, "put on an existing key is refused and told apart");
            if (owns) VP_ASSERT(freed[id] == 1, "the refused value is released");
            return;
        }
        VP_ASSERT(rc == 0, "put overwrites");
        if (owns) VP_ASSERT(freed[V[at]] == 1, "the overwritten value is released");
        else VP_ASSERT(old == O[at], "the overwritten object is handed back");
        V[at] = id; O[at] = o; stamp[at] = ++now; uses[at] = 0;
        return;
    }
    VP_ASSERT(rc == 0, "put succeeds");
    if (pcy != U_HMAP_PCY_NONE && n >= max)
    {
        /* exactly one pair went, one the policy entitles to discard */
        size_t gone = n, c = 0;
        for (i = 0; i < n; ++i)
            if (owns ? freed[V[i]] != 0 : O[i] == old) { gone = i; ++c; }
        VP_ASSERT(c == 1, "a full map discards exactly one pair");
        VP_ASSERT(evictable(gone), "the discarded pair is the one the policy designates");
        drop(gone);
    }
    else if (!owns)
        VP_ASSERT(old == NULL, "nothing is discarded while there is room");
    K[n] = k; V[n] = id; O[n] = o; stamp[n] = ++now; uses[n] = 0; ++n;
}

int vp_main (void)
{
    u_hmap_opts_t *opts = NULL;
    u_hmap_t *m = NULL, *m2;
    u_hmap_o_t *o;
    unsigned char key[2] = { 0, 0 };
    size_t at, i;
    int rc, j;
    vp_use_allocator();
    VP_ASSERT(u_hmap_opts_new(&opts) == 0, "options");
    VP_ASSERT(u_hmap_opts_set_size(opts, 1) == 0, "size");
#ifdef TYPE
    VP_ASSERT(u_hmap_opts_set_type(opts, TYPE) == 0, "type");
#else
    VP_ASSERT(u_hmap_opts_set_type(opts, vp_bool() ? U_HMAP_TYPE_LINEAR : U_HMAP_TYPE_CHAIN) == 0, "type");
#endif
    owns = vp_pick(0, 1); over = vp_pick(0, 1);
    VP_ASSERT((owns ? u_hmap_opts_set_option : u_hmap_opts_unset_option)(opts, U_HMAP_OPTS_OWNSDATA) == 0, "ownership");
    VP_ASSERT((over ? u_hmap_opts_unset_option : u_hmap_opts_set_option)(opts, U_HMAP_OPTS_NO_OVERWRITE) == 0, "overwrite");
    VP_ASSERT(u_hmap_opts_set_val_freefunc(opts, vfree) == 0, "free function");
#if defined(H_STRONG)
    VP_ASSERT(u_hmap_opts_set_hashfunc(opts, hash) == 0 && u_hmap_opts_set_option(opts, U_HMAP_OPTS_HASH_STRONG) == 0, "hash");
#elif defined(H_WEAK)
    VP_ASSERT(u_hmap_opts_set_hashfunc(opts, hash) == 0, "hash");
#endif
#if defined(PCY)
    pcy = PCY;
    max = (size_t) vp_pick(1, PRE > 0 ? 3 : 2);
    VP_ASSERT(u_hmap_opts_set_policy(opts, pcy) == 0 && u_hmap_opts_set_max(opts, (int) max) == 0, "policy");
    if (pcy == U_HMAP_PCY_CUSTOM) VP_ASSERT(u_hmap_opts_set_policy_cmp(opts, pcmp) == 0, "comparison");
#else
    pcy = U_HMAP_PCY_NONE;
#endif
    VP_ASSERT(u_hmap_new(opts, &m) == 0, "create");
    check(m);
    for (i = 0; i < PRE; ++i) /* enough pairs to make the map grow */
        put(m, (unsigned char) (i * 37 + 5));
    check(m);
    for (j = 0; j < NOPS; ++j)
    {
        switch (vp_pick(0, NKIND))
        {
            case 0:
                key[0] = anykey();
                put(m, key[0]);
                break;
            case 1:
                key[0] = anykey();
                at = lookup(key[0]);
                o = (u_hmap_o_t *) -1;
                rc = u_hmap_get(m, key, &o);
                VP_ASSERT((rc == 0) == (at < n), "get finds exactly the keys that are there");
                if (rc == 0)
                {
                    VP_ASSERT(o == O[at] && u_hmap_o_get_val(o) == pool + V[at], "get hands out the value last put");
                    if (pcy == U_HMAP_PCY_LRU) stamp[at] = ++now;
                    ++uses[at];
                }
                else VP_ASSERT(o == NULL, "no object when there is no such key");
                break;
            case 2:
                key[0] = anykey();
                at = lookup(key[0]);
                o = (u_hmap_o_t *) -1;
                rc = u_hmap_del(m, key, &o);
                VP_ASSERT((rc == 0) == (at < n), "del finds exactly the keys that are there");
                if (rc == 0)
                {
                    if (owns) VP_ASSERT(freed[V[at]] == 1, "the deleted value is released");
                    else VP_ASSERT(o == O[at], "the deleted object is handed back");
                    drop(at);
                }
                break;
            case 3:
                u_hmap_clear(m);
                n = 0;
                break;
            default:
                /* hand everything over to another map with the same options */
                VP_ASSERT(u_hmap_new(opts, &m2) == 0, "create");
                VP_ASSERT(u_hmap_copy(m2, m) == 0, "copy succeeds");
                u_hmap_free(m);
                m = m2;
                /* ranks follow the order of arrival in the new map: any */
                if (pcy != U_HMAP_PCY_NONE)
                    for (i = 0; i < n; ++i) { stamp[i] = now; uses[i] = 0; }
                ++now;
                break;
        }
        check(m);
    }
    /* every value is released once when the map owns it, never otherwise */
    u_hmap_free(m);
    u_hmap_opts_free(opts);
    for (i = 0; i < next; ++i)
    {
        VP_ASSERT(freed[i] == (owns ? 1 : 0), "each owned value is released exactly once");
        if (!owns) { free(u_hmap_o_get_key(made[i])); u_hmap_o_free(made[i]); }
    }
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
