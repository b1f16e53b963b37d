#include "vp.h"
#include <u/libu.h>

#ifndef PRE
#define PRE 1 /* operations that are pushes for sure */
#endif
#define MAXN (NOPS + 1)
static unsigned char K[MAXN];
static size_t V[MAXN], n;     /* reference: a bag of (key, value) pairs */
static int ncmp;

/* the randomized flavour may draw anything */
int vp_rand (void) { int r = vp_int(); VP_ASSUME(r >= 0); return r; }
void vp_srand (unsigned int s) { (void) s; }
int vp_getpid (void) { return 1; }

#if defined(H_OPAQUE)
static int cmp (const void *a, const void *b)
{
    unsigned char x = *(const unsigned char *) a, y = *(const unsigned char *) b;
    ++ncmp;
    return (x > y) - (x < y);
}
#define VAL(p) (*(const size_t *) (p))
static size_t vtmp;
#define MKV(v) (vtmp = (v), (const void *) &vtmp)
#else
static int cmp (const void *a, const void *b) { ++ncmp; return strcmp(a, b); }
#define VAL(p) ((size_t) (p))
#define MKV(v) ((const void *) (v))
#endif

#if defined(H_TYPES)
/* every way to hold keys and values: who owns what, and for how long */
#define KSZ 2
#define VSZ 3
#define MAXP (PUSHES)
static unsigned char *kp[MAXP], *vp[MAXP], kc[MAXP][KSZ + 1], vc[MAXP][VSZ + 1];
static int kfreed[MAXP], vfreed[MAXP], in[MAXP], kalien, valien, nk, kt, vt;

static void kfree (void *p)
{
    int i;
    if (kt != 2) { u_free(p); return; }
    for (i = 0; i < nk; ++i) if (p == kp[i]) { ++kfreed[i]; return; }
    ++kalien;
}
static void vfree (void *p)
{
    int i;
    if (vt == 1 || vt == 2) { u_free(p); return; }
    for (i = 0; i < nk; ++i) if (p == vp[i]) { ++vfreed[i]; return; }
    ++valien;
}
static int kcmp (const void *a, const void *b)
{
    const unsigned char *x = a, *y = b;
    ++ncmp;
    return x[0] != y[0] ? (x[0] > y[0] ? 1 : -1) : (x[1] > y[1]) - (x[1] < y[1]);
}
static int samekey (int i, int j) { return kc[i][0] == kc[j][0] && kc[i][1] == kc[j][1]; }
static unsigned nvis;
static void vis (u_bst_node_t *x, void *arg) { (void) x; (void) arg; ++nvis; }

int vp_main (void)
{
    u_bst_t *t = NULL;
    u_bst_node_t *x;
    int i, j, rc, na, oom, opt = vp_pick(0, 1), kown, vown, early = vp_bool();
    unsigned m;
    unsigned char q[KSZ + 1];
    vp_use_allocator();
    kt = vp_pick(0, 2);                     /* string, opaque, pointer */
    vt = vp_pick(0, 3);                     /* default, string, opaque, pointer */
    kown = vp_bool(); vown = vp_bool();     /* user's release functions */
    vp_fail_at = vp_pick(-1, FAILS);
    if (u_bst_new(opt ? U_BST_OPT_PUSH_TOP : U_BST_OPT_NONE, &t))
    {
        VP_ASSERT(vp_fail_at == 0, "creation fails only for lack of memory");
        return 1;
    }
    VP_ASSERT(u_bst_set_keyattr(t, U_BST_TYPE_OPAQUE, 0) != 0 && u_bst_set_valattr(t, U_BST_TYPE_OPAQUE, 0) != 0, "opaque things have a size");
    VP_ASSERT(u_bst_set_keyfree(t, NULL) != 0 && u_bst_set_valfree(t, NULL) != 0 && u_bst_set_cmp(t, NULL) != 0, "functions are needed");
    VP_ASSERT(u_bst_set_cmp(t, kcmp) == 0, "set_cmp");
    if (early)  /* not what opaque attributes are told to respect */
    {
        VP_ASSUME((!kown || kt == 2) && (!vown || vt == 0 || vt == 3));
        if (kown) VP_ASSERT(u_bst_set_keyfree(t, kfree) == 0, "set_keyfree");
        if (vown) VP_ASSERT(u_bst_set_valfree(t, vfree) == 0, "set_valfree");
    }
    if (kt) VP_ASSERT(u_bst_set_keyattr(t, kt == 1 ? U_BST_TYPE_OPAQUE : U_BST_TYPE_PTR, KSZ) == 0, "set_keyattr");
    if (vt) VP_ASSERT(u_bst_set_valattr(t, vt == 1 ? U_BST_TYPE_STRING : vt == 2 ? U_BST_TYPE_OPAQUE : U_BST_TYPE_PTR, VSZ) == 0, "set_valattr");
    if (!early)
    {
        if (kown) VP_ASSERT(u_bst_set_keyfree(t, kfree) == 0, "set_keyfree");
        if (vown) VP_ASSERT(u_bst_set_valfree(t, vfree) == 0, "set_valfree");
    }
    for (i = 0; i < PUSHES; ++i)
    {
        kp[i] = malloc(KSZ + 1); vp[i] = malloc(VSZ + 1);
        vp_bytes(kp[i], KSZ); kp[i][KSZ] = 0; vp_bytes(vp[i], VSZ); vp[i][VSZ] = 0;
        if (kt == 0) VP_ASSUME(kp[i][0] && kp[i][1]);
        if (vt == 1) VP_ASSUME(vp[i][0] && vp[i][1] && vp[i][2]);
        memcpy(kc[i], kp[i], KSZ + 1); memcpy(vc[i], vp[i], VSZ + 1);
        for (j = 0; j < i; ++j) VP_ASSUME(!samekey(i, j));
        nk = i + 1;
        na = vp_nalloc;
        rc = u_bst_push(t, kp[i], vp[i]);
        oom = vp_fail_at >= na && vp_fail_at < vp_nalloc;
        VP_ASSERT((rc != 0) == oom, "push fails only for lack of memory");
        VP_ASSERT(kfreed[i] == 0 && vfreed[i] == 0, "what is pushed is kept, what is refused stays with the caller");
        in[i] = rc == 0;
        /* copies don't depend on what they were made of */
        if (kt != 2) memset(kp[i], 0xee, KSZ);
        if (vt == 1 || vt == 2) memset(vp[i], 0xee, VSZ);
    }
    /* one key, there or not, goes */
    vp_bytes(q, KSZ); q[KSZ] = 0;
    for (j = PUSHES, i = 0; i < PUSHES; ++i) if (in[i] && kc[i][0] == q[0] && kc[i][1] == q[1]) j = i;
    rc = u_bst_delete(t, q);
    VP_ASSERT((rc == 0) == (j < PUSHES), "delete succeeds exactly when the key is there");
    if (j < PUSHES)
    {
        in[j] = 0;
        VP_ASSERT(kfreed[j] == (kt == 2 && kown) && vfreed[j] == ((vt == 0 || vt == 3) && vown), "what is deleted is released");
    }
    VP_ASSERT(u_bst_balance(t) == 0, "balance");
    for (m = 0, i = 0; i < PUSHES; ++i)
    {
        x = u_bst_search(t, kc[i]);
        VP_ASSERT((x != NULL) == in[i], "search finds what is there");
        if (!in[i]) continue;
        ++m;
        VP_ASSERT(memcmp(u_bst_node_key(x), kc[i], KSZ + (kt == 0)) == 0, "the key is the one pushed");
        VP_ASSERT(memcmp(u_bst_node_val(x), vc[i], VSZ + (vt == 1)) == 0, "the value is the one pushed");
        VP_ASSERT((u_bst_node_key(x) == kp[i]) == (kt == 2), "pointers are kept, the rest is copied");
        VP_ASSERT((u_bst_node_val(x) == vp[i]) == (vt == 0 || vt == 3), "pointers are kept, the rest is copied");
        VP_ASSERT(u_bst_node_count(x) >= 1 && u_bst_node_count(x) <= u_bst_count(t), "nodes count themselves");
        VP_ASSERT((kfreed[i] | vfreed[i]) == 0, "what is held is not released");
    }
    VP_ASSERT(u_bst_count(t) == (ssize_t) m, "count");
    VP_ASSERT(u_bst_foreach(t, vis, NULL) == 0 && nvis == m, "traversal visits every pair");
    u_bst_free(t);
    for (i = 0; i < PUSHES; ++i)
    {
        VP_ASSERT(kfreed[i] == (kt == 2 && kown && (in[i] || i == j)), "every key the tree owns is released once");
        VP_ASSERT(vfreed[i] == ((vt == 0 || vt == 3) && vown && (in[i] || i == j)), "every value the tree owns is released once");
        free(kp[i]); free(vp[i]);
    }
    VP_ASSERT(kalien == 0 && valien == 0, "nothing else is released");
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
#else
static u_bst_node_t *seen[MAXN + 1];
static size_t nseen;
static void visit (u_bst_node_t *x, void *arg)
{
    VP_ASSERT(arg == (void *) &nseen, "the callback gets its argument");
    VP_ASSERT(nseen < n, "traversal visits no more nodes than there are");
    seen[nseen++] = x;
}

static unsigned char key1 (u_bst_node_t *x) { return *(const unsigned char *) u_bst_node_key(x); }

static void check (u_bst_t *t)
{
    size_t i, j, found = 0;
    VP_ASSERT(u_bst_count(t) == (ssize_t) n, "count is the number of pairs");
    VP_ASSERT(!!u_bst_empty(t) == (n == 0), "empty exactly without pairs");
    nseen = 0;
    VP_ASSERT(u_bst_foreach(t, visit, &nseen) == 0, "foreach succeeds");
    VP_ASSERT(nseen == n, "traversal visits every pair");
    for (i = 0; i < n; ++i)
    {
        if (i) VP_ASSERT(key1(seen[i - 1]) <= key1(seen[i]), "traversal is in key order");
        VP_ASSERT(u_bst_find_nth(t, i) == seen[i], "find_nth agrees with the traversal");
        for (j = 0; j < n; ++j)
            if (V[j] == VAL(u_bst_node_val(seen[i]))) { ++found; VP_ASSERT(K[j] == key1(seen[i]), "value under the key it was pushed with"); }
    }
    VP_ASSERT(found == n, "the pairs are those pushed and not deleted");
    VP_ASSERT(u_bst_find_nth(t, n) == NULL, "nothing past the last");
}

static void mkkey (unsigned char *k)
{
    k[0] = vp_u8(); k[1] = '\0';
#if !defined(H_OPAQUE)
    VP_ASSUME(k[0] != 0);
#endif
}

static int depth_limit (size_t m) { int d = 0; while (m) { ++d; m >>= 1; } return d; }

#if defined(BAL)
/* BAL keys in any order: balancing keeps them and every search is short */
int vp_main (void)
{
    u_bst_t *t = NULL; unsigned char k[2] = { 0, 0 }, used = 0; int i, d; u_bst_node_t *x;
    vp_use_allocator();
    VP_ASSERT(u_bst_new(vp_bool() ? U_BST_OPT_NONE : U_BST_OPT_PUSH_TOP, &t) == 0 && u_bst_set_cmp(t, cmp) == 0, "create");
    VP_ASSERT(u_bst_set_keyattr(t, U_BST_TYPE_OPAQUE, 1) == 0 && u_bst_set_valattr(t, U_BST_TYPE_OPAQUE, sizeof(size_t)) == 0, "attributes");
    for (i = 0; i < BAL; ++i)
    {
        int a, r = vp_pick(0, BAL - 1 - i);
        for (a = 0; (used & 1 << a) || r-- > 0; ++a) ;
        used |= (unsigned char) (1 << a);
        k[0] = (unsigned char) ('a' + a);
        VP_ASSERT(u_bst_push(t, k, MKV(i)) == 0, "push"); K[n] = k[0]; V[n++] = (size_t) i;
        if (i < BAL - 2) continue;
        VP_ASSERT(u_bst_balance(t) == 0, "balance succeeds");
        check(t);
        for (d = 0; d < BAL; ++d)
        {
            k[0] = (unsigned char) ('a' + d); ncmp = 0;
            x = u_bst_search(t, k);
            VP_ASSERT((x != NULL) == !!(used & 1 << d), "search finds exactly the keys that are there");
            VP_ASSERT(ncmp <= depth_limit(n), "search in a balanced tree takes at most floor(log2 n) + 1 comparisons");
        }
    }
    u_bst_free(t);
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
#else
int vp_main (void)
{
    u_bst_t *t = NULL;
    unsigned char k[2];
    u_bst_node_t *x;
    int i, rc, oom, opt = vp_pick(0, 2);
    size_t j, next = 1, m;
    vp_use_allocator();
    vp_fail_at = vp_pick(-1, FAILS);
    rc = u_bst_new(opt == 0 ? U_BST_OPT_NONE : opt == 1 ? U_BST_OPT_PUSH_TOP : U_BST_OPT_RANDOMIZED, &t);
    if (rc != 0)
    {
        VP_ASSERT(vp_fail_at == 0, "creation fails only for lack of memory");
        return 1;
    }
    VP_ASSERT(u_bst_set_cmp(t, cmp) == 0, "set_cmp");
#if defined(H_OPAQUE)
    VP_ASSERT(u_bst_set_keyattr(t, U_BST_TYPE_OPAQUE, 1) == 0 && u_bst_set_valattr(t, U_BST_TYPE_OPAQUE, sizeof(size_t)) == 0, "attributes");
#endif
    for (i = 0; i < NOPS; ++i)
    {
        int na = vp_nalloc;
        switch (i < PRE ? 0 : vp_pick(0, 3))
        {
            case 0:
                mkkey(k);
                rc = u_bst_push(t, k, MKV(next));
                oom = vp_fail_at >= na && vp_fail_at < vp_nalloc;
                VP_ASSERT((rc != 0) == oom, "push fails only for lack of memory");
                if (rc == 0) { K[n] = k[0]; V[n++] = next; }
                ++next;
                break;
            case 1:
                mkkey(k);
                for (j = 0, m = 0; j < n; ++j) m += (K[j] == k[0]);
                rc = u_bst_delete(t, k);
                VP_ASSERT((rc == 0) == (m > 0), "delete succeeds exactly when the key is there");
                if (rc == 0)
                {
                    /* exactly one pair with that key is gone: find which */
                    size_t gone = n, c = 0, a;
                    nseen = 0;
                    --n;
                    u_bst_foreach(t, visit, &nseen);
                    ++n;
                    VP_ASSERT(nseen == n - 1, "delete removes one pair");
                    for (j = 0; j < n; ++j)
                    {
                        for (a = 0; a < nseen && VAL(u_bst_node_val(seen[a])) != V[j]; ++a) ;
                        if (a == nseen) { gone = j; ++c; }
                    }
                    VP_ASSERT(c == 1 && K[gone] == k[0], "the pair removed had the given key");
                    --n; K[gone] = K[n]; V[gone] = V[n];
                }
                break;
            case 2:
                mkkey(k);
                for (j = 0, m = 0; j < n; ++j) m += (K[j] == k[0]);
                x = u_bst_search(t, k);
                VP_ASSERT((x != NULL) == (m > 0), "search finds exactly the keys that are there");
                if (x) VP_ASSERT(key1(x) == k[0], "search finds the key asked for");
                break;
            default:
                VP_ASSERT(u_bst_balance(t) == 0, "balance succeeds");
                mkkey(k);
                ncmp = 0;
                (void) u_bst_search(t, k);
                VP_ASSERT(ncmp <= depth_limit(n), "search in a balanced tree takes at most floor(log2 n) + 1 comparisons");
                break;
        }
        check(t);
    }
    u_bst_free(t);
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
#endif
#endif
