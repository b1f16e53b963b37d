/* containers grown well beyond the sizes every history of which is explored:
 * regular fillings of many sizes and shapes, with some arbitrary elements */
#include "vp.h"
#include <stdio.h>
#include <u/libu.h>

#if defined(L_HMAP) || defined(L_LIMIT)
static unsigned char pool[700];
static int freed[700];
static unsigned char *any; static int anyfreed, anyseen;
static void vfree (void *v) { if (v == any) ++anyfreed; else ++freed[(unsigned char *) v - pool]; }
static int seen[700];
static int visit (const void *k, const void *v) { (void) k; if (v == any) ++anyseen; else ++seen[(const unsigned char *) v - pool]; return 0; }
#endif

#if defined(L_HMAP)
int vp_main (void)
{
    static const int sz[] = { 1, 14, 100, 512 };
    static int val[400]; char key[12]; u_hmap_opts_t *opts = NULL; u_hmap_t *m = NULL; int i, n = 300, next, odd = vp_pick(0, 2), size = sz[vp_pick(0, 3)], s = vp_u8(), left;
    vp_use_allocator();
    VP_ASSERT(u_hmap_opts_new(&opts) == 0 && u_hmap_opts_set_size(opts, size) == 0, "options");
    VP_ASSERT(u_hmap_opts_set_type(opts, vp_bool() ? U_HMAP_TYPE_LINEAR : U_HMAP_TYPE_CHAIN) == 0 && u_hmap_opts_set_val_freefunc(opts, vfree) == 0, "options");
    VP_ASSERT(u_hmap_opts_unset_option(opts, U_HMAP_OPTS_NO_OVERWRITE) == 0, "options");
    VP_ASSERT(u_hmap_easy_new(opts, &m) == 0, "create");
    u_hmap_opts_free(opts);
    for (i = 0; i < n; ++i)
    {
        sprintf(key, odd ? "k%d" : "%dk", i);
        val[i] = i;
        VP_ASSERT(u_hmap_easy_put(m, key, pool + i) == 0, "put succeeds");
        if (i % 50 == 7) { sprintf(key, odd ? "k%d" : "%dk", i / 2); VP_ASSERT(u_hmap_easy_get(m, key) == pool + val[i / 2], "pairs are found as the map grows"); }
    }
    /* some are deleted, some replaced, any one of them by an arbitrary value */
    next = n; left = n;
    for (i = 0; i < n; ++i)
    {
        sprintf(key, odd ? "k%d" : "%dk", i);
        if (i % 3 == odd) { VP_ASSERT(u_hmap_easy_del(m, key) == 0 && freed[val[i]] == 1, "deletion releases the value"); val[i] = -1; --left; }
        else if (i % 7 == 1) { VP_ASSERT(u_hmap_easy_put(m, key, pool + next) == 0 && freed[val[i]] == 1, "a value replaced is released"); val[i] = next++; }
    }
    any = pool + 430 + s;
    sprintf(key, odd ? "k%d" : "%dk", n);
    VP_ASSERT(u_hmap_easy_put(m, key, any) == 0, "put succeeds"); ++left;
    VP_ASSERT(u_hmap_easy_get(m, key) == any, "with any value");
    VP_ASSERT(u_hmap_count(m) == left, "count is the number of pairs");
    VP_ASSERT(u_hmap_easy_del(m, key) == 0 && anyfreed == 1, "and deleted"); --left;
    VP_ASSERT(u_hmap_foreach_keyval(m, visit) == 0, "traversal");
    for (i = 0; i < n; ++i)
    {
        sprintf(key, odd ? "k%d" : "%dk", i);
        VP_ASSERT(u_hmap_easy_get(m, key) == (val[i] < 0 ? NULL : pool + val[i]), "get yields the value last put");
        if (val[i] >= 0) VP_ASSERT(seen[val[i]] == 1 && !freed[val[i]], "traversal visits every pair once");
    }
    VP_ASSERT(u_hmap_count(m) == left, "count is the number of pairs");
    if (vp_bool()) { u_hmap_easy_clear(m); VP_ASSERT(u_hmap_count(m) == 0 && u_hmap_easy_get(m, "k1") == NULL, "clear"); }
    u_hmap_easy_free(m);
    for (i = 0; i < next; ++i) VP_ASSERT(freed[i] == 1, "every value is released once");
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
#elif defined(L_LIMIT)
int vp_main (void)
{
    static const int mx[] = { 3, 12, 13, 14, 40 };
    static int ord[300]; char key[12]; u_hmap_opts_t *opts = NULL; u_hmap_t *m = NULL; int i, j, n = 0, max = mx[vp_pick(0, 4)], pcy = vp_pick(0, 2), step = vp_pick(2, 3), x = vp_u8();
    vp_use_allocator();
    VP_ASSERT(u_hmap_opts_new(&opts) == 0 && u_hmap_opts_set_size(opts, vp_bool() ? 1 : 512) == 0, "options");
    VP_ASSERT(u_hmap_opts_set_type(opts, vp_bool() ? U_HMAP_TYPE_LINEAR : U_HMAP_TYPE_CHAIN) == 0 && u_hmap_opts_set_val_freefunc(opts, vfree) == 0, "options");
    VP_ASSERT(u_hmap_opts_set_policy(opts, pcy == 0 ? U_HMAP_PCY_FIFO : pcy == 1 ? U_HMAP_PCY_LRU : U_HMAP_PCY_LFU) == 0 && u_hmap_opts_set_max(opts, max) == 0, "policy");
    VP_ASSERT(u_hmap_easy_new(opts, &m) == 0, "create");
    u_hmap_opts_free(opts);
    /* ord: what is there, first the next to go */
    for (i = 0; i < 3 * max + 20; ++i)
    {
        if (i > max && i % 5 == 2)
        {
            /* a deletion in the middle */
            j = ord[n / 2];
            sprintf(key, "k%d", j); VP_ASSERT(u_hmap_easy_del(m, key) == 0 && freed[j] == 1, "delete");
            for (j = n / 2, --n; j < n; ++j) ord[j] = ord[j + 1];
        }
        if (n == max) { --n; for (j = 0; j < n; ++j) ord[j] = ord[j + 1]; }
        sprintf(key, "k%d", i); VP_ASSERT(u_hmap_easy_put(m, key, pool + i) == 0, "put succeeds");
        VP_ASSERT(u_hmap_count(m) == n + 1, "no more pairs than the limit");
        if (pcy == 2)
        {
            /* least used: every pair is used as often, in turn, so that the oldest of the new ones goes */
            ord[n++] = i;
            sprintf(key, "k%d", i);
            for (j = 0; j <= 200 - i; ++j) VP_ASSERT(u_hmap_easy_get(m, key) == pool + i, "get");
            if (n > 1) { int t = ord[n - 1]; for (j = n - 1; j > 0; --j) ord[j] = ord[j - 1]; ord[0] = t; }
            continue;
        }
        ord[n++] = i;
        if (n > step && i % step == 0)
        {
            /* a use of the second */
            int k = ord[1];
            sprintf(key, "k%d", k); VP_ASSERT(u_hmap_easy_get(m, key) == pool + k, "get");
            if (pcy == 1) { for (j = 1; j < n - 1; ++j) ord[j] = ord[j + 1]; ord[n - 1] = k; }
        }
    }
    /* any value in the end */
    if (n == max) { --n; for (j = 0; j < n; ++j) ord[j] = ord[j + 1]; }
    any = pool + 300 + x;
    VP_ASSERT(u_hmap_easy_put(m, "z", any) == 0 && u_hmap_easy_get(m, "z") == any, "any value");
    VP_ASSERT(u_hmap_foreach_keyval(m, visit) == 0 && u_hmap_count(m) == n + 1, "traversal");
    for (j = 0; j < n; ++j) VP_ASSERT(seen[ord[j]] == 1 && freed[ord[j]] == 0, "what the policy keeps is there");
    for (i = j = 0; j < 300; ++j) i += seen[j];
    VP_ASSERT(i == n && anyseen == 1, "and nothing else");
    u_hmap_easy_free(m);
    for (i = 0; i < 3 * max + 20; ++i) VP_ASSERT(freed[i] == 1, "every value is released once");
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
#elif defined(L_PQ)
static double K[80]; static int n;
static void pop (u_pq_t *q)
{
    double k; size_t v = (size_t) u_pq_delmax(q, &k); int i, at = -1, ok = 1;
    for (i = 0; i < n; ++i) ok &= k >= K[i];
    VP_ASSERT(ok, "the top has the highest key");
    /* keys are found again by the value */
    for (i = 0; i < n; ++i) if (K[i] == k) at = i;
    VP_ASSERT(at >= 0 && v >= 1, "the top is one of the queued items");
    K[at] = K[--n];
}
int vp_main (void)
{
    static const int st[] = { 1, 7, 13, 36 };
    u_pq_t *q = NULL; int cap = vp_pick(14, 17), i, step = st[vp_pick(0, 3)], a, b; double x;
    union { long l; double d; } u;
    if (vp_bool()) cap = 37;
    vp_use_allocator();
    VP_ASSERT(u_pq_create((size_t) cap, &q) == 0, "create");
    a = vp_pick(0, 2) * (cap / 2 - 1);
    b = cap / 3;
    u.l = (long) ((unsigned long) vp_u8() << 56);
    for (i = 0; i < cap; ++i)
    {
        x = (double) ((i * step) % 37) - 18;
        if (i == a) x = u.d;
        VP_ASSERT(u_pq_push(q, x, (void *) (size_t) (i + 1)) == 0, "push succeeds");
        K[n++] = x;
    }
    VP_ASSERT(u_pq_full(q) && u_pq_push(q, 1, NULL) == -2, "full at capacity");
    for (i = 0; i < b; ++i) pop(q);
    for (i = 0; i < b; ++i)
    {
        x = (double) ((i * 11) % 37) - 17.5;
        VP_ASSERT(u_pq_push(q, x, (void *) (size_t) (i + 100)) == 0, "push succeeds");
        K[n++] = x;
    }
    while (n) pop(q);
    VP_ASSERT(u_pq_empty(q) && u_pq_delmax(q, &x) == NULL, "empty after evicting everything");
    u_pq_free(q);
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
#elif defined(L_LIST)
int vp_main (void)
{
    static size_t M[200]; u_list_t *l = NULL; void *it, *p; int i, j, n = 0, sizes[] = { 20, 64, 65, 130 }, top = sizes[vp_pick(0, 3)], at = vp_pick(0, 6); size_t v = vp_size();
    vp_use_allocator();
    VP_ASSUME(v != 0);
    VP_ASSERT(u_list_create(&l) == 0, "create");
    for (i = 0; i < top; ++i)
    {
        j = i % 4 == 3 ? (i * 5) % (n + 1) : n;
        if (j == n && vp_nalloc % 2) VP_ASSERT(u_list_add(l, (void *) (size_t) (i + 1)) == 0, "add");
        else VP_ASSERT(u_list_insert(l, (void *) (size_t) (i + 1), (size_t) j) == 0, "insert");
        memmove(M + j + 1, M + j, sizeof *M * (size_t) (n - j)); M[j] = (size_t) (i + 1); ++n;
    }
    at = at == 0 ? 0 : at == 1 ? 1 : at == 2 ? n / 2 : at == 3 ? n - 1 : at == 4 ? n : at == 5 ? n - 2 : n / 3;
    VP_ASSERT(u_list_insert(l, (void *) v, (size_t) at) == 0, "insert");
    memmove(M + at + 1, M + at, sizeof *M * (size_t) (n - at)); M[at] = v; ++n;
    for (i = 0; i < top / 3; ++i)
    {
        j = (i * 7) % n;
        if (i % 2 || M[j] > 1000) VP_ASSERT(u_list_del_n(l, (size_t) j, &p) == 0 && p == (void *) M[j], "n-th deleted");
        else
        {
            VP_ASSERT(u_list_del(l, (void *) M[j]) == 0, "deleted by value");
            /* the first one of the value */
            for (p = (void *) M[j], j = 0; M[j] != (size_t) p; ++j) ;
        }
        memmove(M + j, M + j + 1, sizeof *M * (size_t) (n - j - 1)); --n;
    }
    VP_ASSERT(u_list_count(l) == (size_t) n, "count is the number of elements");
    for (i = 0; i < n; ++i) VP_ASSERT(u_list_get_n(l, (size_t) i) == (void *) M[i], "n-th element in insertion position");
    VP_ASSERT(u_list_get_n(l, (size_t) n) == NULL, "no element past the end");
    for (i = 0, p = u_list_first(l, &it); p; p = u_list_next(l, &it), ++i) VP_ASSERT(i < n && p == (void *) M[i], "iteration in order");
    VP_ASSERT(i == n, "iteration visits every element");
    u_list_free(l);
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
#elif defined(L_BST)
static unsigned seed = 12345;
int vp_rand (void) { seed = seed * 1103515245u + 12345u; return (int) (seed >> 1); }
void vp_srand (unsigned s) { (void) s; }
pid_t vp_getpid (void) { return 77; }
static int n; static char in[128]; static u_bst_node_t *last; static int nv, x;
static int cmp (const void *a, const void *b) { return strcmp((const char *) a, (const char *) b); }
static void visit (u_bst_node_t *p, void *arg) { (void) arg; if (last) VP_ASSERT(strcmp((const char *) u_bst_node_key(last), (const char *) u_bst_node_key(p)) <= 0, "traversal is in key order"); last = p; ++nv; }
static void check (u_bst_t *t, int top)
{
    int i, k; char key[4]; u_bst_node_t *p;
    VP_ASSERT(u_bst_count(t) == n, "count is the number of pairs");
    last = NULL; nv = 0;
    VP_ASSERT(u_bst_foreach(t, visit, NULL) == 0 && nv == n, "traversal visits every pair");
    for (i = k = 0; i < top; ++i)
    {
        key[0] = (char) ('0' + i / 10); key[1] = (char) ('0' + i % 10); key[2] = 0;
        p = u_bst_search(t, key);
        VP_ASSERT((p != NULL) == in[i], "search finds exactly the keys that are there");
        if (!p) continue;
        VP_ASSERT(u_bst_node_val(p) == (i == 20 ? (void *) (size_t) x : (void *) (size_t) (i + 1)), "with their values");
        VP_ASSERT(u_bst_find_nth(t, (size_t) k) == p, "n-th in order");
        ++k;
    }
    VP_ASSERT(u_bst_find_nth(t, (size_t) n) == NULL, "nothing past the last");
}
int vp_main (void)
{
    static const int sz[] = { 31, 32, 60, 64 };
    int top = sz[vp_pick(0, 3)], how = vp_pick(0, 3), i, j; u_bst_t *t = NULL; char key[4] = { 0 };
    vp_use_allocator();
    x = vp_u8() + 1;
    i = vp_pick(0, 2);
    VP_ASSERT(u_bst_new(i == 0 ? U_BST_OPT_NONE : i == 1 ? U_BST_OPT_PUSH_TOP : U_BST_OPT_RANDOMIZED, &t) == 0, "create");
    VP_ASSERT(u_bst_set_cmp(t, cmp) == 0, "cmp");
    for (j = 0; j < top; ++j)
    {
        i = how == 0 ? j : how == 1 ? top - 1 - j : how == 2 ? (j & 1 ? top - 1 - j / 2 : j / 2) : (j * 7) % top;
        if (in[i]) continue;
        key[0] = (char) ('0' + i / 10); key[1] = (char) ('0' + i % 10);
        VP_ASSERT(u_bst_push(t, key, i == 20 ? (void *) (size_t) x : (void *) (size_t) (i + 1)) == 0, "push"); in[i] = 1; ++n;
    }
    check(t, top);
    for (j = 0; j < 10; ++j)
    {
        i = (j * 11) % top;
        key[0] = (char) ('0' + i / 10); key[1] = (char) ('0' + i % 10);
        VP_ASSERT((u_bst_delete(t, key) == 0) == in[i], "delete succeeds exactly when the key is there");
        if (in[i]) { in[i] = 0; --n; }
    }
    check(t, top);
    VP_ASSERT(u_bst_balance(t) == 0, "balance");
    check(t, top);
    u_bst_free(t);
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
#elif defined(L_RB)
int vp_main (void)
{
    static const int sz[] = { 16, 64, 100, 255, 256, 257 }, st[] = { 1, 7, 30, 63 };
    static unsigned char F[6000], d[300], e[300]; size_t size = (size_t) sz[vp_pick(0, 5)], w = 0, r = 0, k; ssize_t rc; u_rb_t *rb = NULL; int i, j, cont = vp_bool(), step = st[vp_pick(0, 3)]; unsigned char *p;
    vp_use_allocator();
    VP_ASSERT(u_rb_create(size, U_RB_OPT_IMPL_MALLOC | (cont ? U_RB_OPT_USE_CONTIGUOUS_MEM : 0), &rb) == 0, "create");
    VP_ASSERT(u_rb_size(rb) >= size, "size"); size = u_rb_size(rb);
    for (i = 0; i < 40; ++i)
    {
        k = (size_t) ((i * step) % (int) (size + 1)); if (k > 120) k = 120;
        for (j = 0; j < (int) k; ++j) d[j] = (unsigned char) ((i * 31 + j) & 255);
        if (k && i % 13 == 1) d[k / 2] = vp_u8();
        rc = u_rb_write(rb, d, k);
        VP_ASSERT(rc == (ssize_t) (k < size - (w - r) ? k : size - (w - r)), "write takes as much as there is room for");
        memcpy(F + w, d, (size_t) rc); w += (size_t) rc;
        VP_ASSERT(u_rb_ready(rb) == w - r && u_rb_avail(rb) == size - (w - r), "ready and available");
        k = (size_t) ((i * 17 + step) % (int) (size + 1)); if (k > 110) k = 110;
        if (i % 3 == 0 && k > 3) k = 3;
        if (cont && i % 4 == 1)
        {
            size_t g = k;
            p = (unsigned char *) u_rb_fast_read(rb, &g);
            VP_ASSERT(g == (k < w - r ? k : w - r) && (p != NULL) == (g > 0), "no-copy read returns as much as is ready");
            rc = (ssize_t) g;
        }
        else { p = e; rc = u_rb_read(rb, e, k); VP_ASSERT(rc == (ssize_t) (k < w - r ? k : w - r), "read returns as much as is ready"); }
        for (j = 0; j < (int) rc; ++j) VP_ASSERT(p[j] == F[r + (size_t) j], "bytes are read in the order they were written");
        r += (size_t) rc;
    }
    u_rb_free(rb);
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
#elif defined(L_BUF)
int vp_main (void)
{
    static const int st[] = { 1, 3, 64, 129, 1000 };
    static char M[70000]; u_buf_t *b = NULL; u_string_t *s = NULL; size_t n = 0, k; int i, step = st[vp_pick(0, 4)], str = STR, times = vp_pick(1, 2) * 32 + 1; char d[1100];
    vp_use_allocator();
    for (i = 0; i < (int) sizeof d; ++i) d[i] = (char) ('a' + i % 26);
    VP_ASSERT(u_buf_create(&b) == 0 && u_string_create(NULL, 0, &s) == 0, "create");
    for (i = 0; i < times; ++i)
    {
        k = (size_t) (i % 3 == 2 ? 1 : step);
        d[0] = i == 5 ? vp_of("xyz0") : 'A'; d[k] = 0;
        if (str) VP_ASSERT((i % 4 == 1 ? u_string_aprintf(s, "%s", d) : u_string_append(s, d, k)) == 0, "append");
        else VP_ASSERT((i % 4 == 1 ? u_buf_printf(b, "%s", d) : u_buf_append(b, d, k)) == 0, "append");
        d[k] = 'a';
        memcpy(M + n, d, k); n += k;
        if (str) VP_ASSERT(u_string_len(s) == n && u_string_c(s)[n] == 0, "the length is that of the text, terminated");
        else VP_ASSERT(u_buf_len(b) == (ssize_t) n && u_buf_size(b) >= (ssize_t) n, "the length is that of the data");
    }
    VP_ASSERT(memcmp(str ? (const void *) u_string_c(s) : u_buf_ptr(b), M, n) == 0, "the data are those appended");
    if (str) { VP_ASSERT(u_string_set_length(s, n / 2) == 0 && u_string_len(s) == n / 2 && u_string_c(s)[n / 2] == 0 && memcmp(u_string_c(s), M, n / 2) == 0, "shortened"); }
    else { VP_ASSERT(u_buf_shrink(b, n / 2) == 0 && u_buf_len(b) == (ssize_t) (n / 2) && memcmp(u_buf_ptr(b), M, n / 2) == 0, "shortened"); }
    u_buf_free(b); u_string_free(s);
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
#elif defined(L_ARRAY)
int vp_main (void)
{
    static const int st[] = { 1, 2, 9, 100, 1000 };
    static int M[5000]; static char set[5000]; u_array_t *a = NULL; int i, v, top = 0, step = st[vp_pick(0, 4)], start = vp_pick(0, 2); size_t idx;
    vp_use_allocator();
    VP_ASSERT(u_array_create(U_ARRAY_TYPE_INT, start == 0 ? 0 : start == 1 ? 1 : 50, &a) == 0, "create");
    for (i = 0; i < 40; ++i)
    {
        idx = (size_t) (i * step); if (i % 3 == 2) idx /= 2;
        if (idx >= 5000) break;
        v = i == 3 ? vp_int() : i * 1000 + 1;
        VP_ASSERT(u_array_set_int(a, idx, v, NULL) == 0, "set succeeds");
        M[idx] = v; set[idx] = 1; if ((int) idx > top) top = (int) idx;
    }
    for (i = 0; i <= top; ++i)
    {
        v = 77;
        if (set[i]) VP_ASSERT(u_array_get_int(a, (size_t) i, &v) == 0 && v == M[i], "get yields the value last stored");
        else if (u_array_get_int(a, (size_t) i, &v) == 0) VP_ASSERT(v == 0, "zero when never set");
    }
    VP_ASSERT(u_array_get_int(a, (size_t) 1 << 40, &v) != 0, "nothing out of bounds");
    u_array_free(a);
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
#endif
