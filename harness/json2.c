#include "vp.h"
#include <limits.h>
#include <stdio.h>
#include <u/libu.h>

#if defined(H_ATOM) || defined(H_TREE)
/* checked creation of strings and numbers; what is accepted survives a round trip */
static int digit (char c) { return c >= '0' && c <= '9'; }
static int hex (char c) { return digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static int isstr (const char *s)
{
    int i;
    for (; *s; ++s)
    {
        if ((unsigned char) *s < 0x20 || *s == '"') return 0;
        if (*s == '\\')
        {
            ++s;
            if (*s == 'u') { for (i = 1; i <= 4; ++i) if (!hex(s[i])) return 0; s += 4; }
            else if (*s != '"' && *s != '\\' && *s != '/' && *s != 'b' && *s != 'f' && *s != 'n' && *s != 'r' && *s != 't') return 0;
        }
    }
    return 1;
}
#endif
#if defined(H_ATOM)
static int isnum (const char *s)
{
    if (*s == '-') ++s;
    if (*s == '0') ++s;
    else { if (!digit(*s)) return 0; while (digit(*s)) ++s; }
    if (*s == '.') { ++s; if (!digit(*s)) return 0; while (digit(*s)) ++s; }
    if (*s == 'e' || *s == 'E') { ++s; if (*s == '+' || *s == '-') ++s; if (!digit(*s)) return 0; while (digit(*s)) ++s; }
    return *s == '\0';
}

int vp_main (void)
{
    static const long L[] = { 0, 1, -1, 9, 10, -10, LONG_MAX, LONG_MIN, INT_MAX, INT_MIN };
    static const double D[] = { 0.0, -0.5, 1e10, 1.5e-7, 123456.0, -1e300, 0.125 };
    static char val[300];
    char *out = NULL, *out2 = NULL;
    u_json_t *root = NULL, *j = NULL, *back = NULL, *b;
    int arr, kind, rc, want, n;
    long l = 0; double d = 0; char tf = 0;
    vp_use_allocator();
    arr = vp_pick(0, 1);
    VP_ASSERT((arr ? u_json_new_array : u_json_new_object)(NULL, &root) == 0, "container");
    kind = vp_pick(0, 6);
    switch (kind)
    {
        case 0: vp_str(val, N); rc = u_json_new_string("k", val, &j); want = isstr(val); break;
        case 1: vp_str(val, N); rc = u_json_new_number("k", val, &j); want = isnum(val); break;
        case 2: n = vp_pick(U_TOKEN_SZ - 3, U_TOKEN_SZ + 2); memset(val, '7', (size_t) n); val[n] = '\0'; rc = (vp_bool() ? u_json_new_number : u_json_new_string)("k", val, &j); want = n < U_TOKEN_SZ - 1; VP_ASSUME(n != U_TOKEN_SZ - 1); break;
        case 3: l = L[vp_pick(0, 9)]; rc = u_json_new_int("k", l, &j); want = 1; break;
        case 4: d = D[vp_pick(0, 6)]; rc = u_json_new_real("k", d, &j); want = 1; break;
        case 5: tf = (char) vp_pick(0, 1); rc = u_json_new_bool("k", tf, &j); want = 1; break;
        default: rc = u_json_new_null("k", &j); want = 1; break;
    }
    VP_ASSERT((rc == 0) == want, "an item is made of legal values, and of them only");
    if (rc)
    {
        u_json_free(root);
        VP_ASSERT(vp_live == 0, "a refused value leaves nothing behind");
        return 0;
    }
    if (arr) VP_ASSERT(u_json_set_key(j, NULL) == 0, "no name in an array");
    VP_ASSERT(u_json_add(root, j) == 0, "add");
    VP_ASSERT(u_json_encode(root, &out) == 0, "encode");
    VP_ASSERT(u_json_decode(out, &back) == 0, "what is written out can be read back");
    b = u_json_child_first(back);
    VP_ASSERT(b != NULL && u_json_child_last(back) == b, "one item");
    VP_ASSERT(strcmp(u_json_get_val(b), u_json_get_val(j)) == 0, "same value");
    VP_ASSERT(kind == 3 || kind > 4 || kind == 2 || u_json_get_int(b, &l) || kind != 0, "same type");
    if (kind <= 1) VP_ASSERT(strcmp(u_json_get_val(b), val) == 0, "value as given");
    if (kind == 0) VP_ASSERT(u_json_get_int(b, &l) != 0 && u_json_get_bool(b, &tf) != 0, "a string");
    if (kind == 3) { long x = 5; VP_ASSERT(u_json_get_int(b, &x) == 0 && x == l, "same integer"); }
    if (kind == 4) { double x = 5; VP_ASSERT(u_json_get_real(b, &x) == 0 && x == d, "same real"); }
    if (kind == 5) { char x = 5; VP_ASSERT(u_json_get_bool(b, &x) == 0 && x == tf, "same truth value"); }
    if (!arr)
    {
        VP_ASSERT(u_json_index(back) == 0, "index");
        VP_ASSERT(u_json_cache_get(back, "..k") == b, "same name");
        VP_ASSERT(u_json_cache_get(back, ".k") == b, "name relative to the outermost container");
    }
    VP_ASSERT(u_json_encode(back, &out2) == 0 && strcmp(out, out2) == 0, "same text");
    vp_free(out); vp_free(out2);
    u_json_free(root); u_json_free(back);
    VP_ASSERT(vp_live == 0, "nothing is left behind");
    return 0;
}
#elif defined(H_TREE)
/* every tree of a few items, made in one way or another, written out and read back */
static struct { u_json_t *j; int up, kind; char key[4], val[8]; } T[NIT + 1];
static int nt;
static char want[400]; static size_t wn;
static void w (const char *s) { strcpy(want + wn, s); wn += strlen(s); }
static void enc (int i)
{
    static const char *lit[] = { "", "", "true", "false", "null" };
    int k, n = 0, cont = T[i].kind >= 5;
    if (T[i].up >= 0 && T[T[i].up].kind == 6) { w("\""); w(T[i].key); w("\":"); }
    if (T[i].kind == 0) { w("\""); w(T[i].val); w("\""); }
    else if (T[i].kind == 1) w(T[i].val);
    else if (!cont) w(lit[T[i].kind]);
    else
    {
        w(T[i].kind == 5 ? "[" : "{");
        for (k = i + 1; k < nt; ++k) if (T[k].up == i) { if (n++) w(","); enc(k); }
        w(T[i].kind == 5 ? "]" : "}");
    }
}
static int at;
static void pre (u_json_t *j, size_t l, void *arg)
{
    /* the items in the order of the text, which is not that of their creation */
    int *ord = (int *) arg, i, d = 0, u;
    for (i = 0; i < nt; ++i) if (T[i].j == j) break;
    VP_ASSERT(i < nt && at < nt, "the walk visits the items");
    ord[at++] = i;
    for (u = T[i].up; u >= 0; u = T[u].up) ++d;
    VP_ASSERT(l == (size_t) d + 3, "at their depth");
}
static int exp_[NIT + 1], ne;
static void order (int i, int post)
{
    int k;
    if (!post) exp_[ne++] = i;
    for (k = i + 1; k < nt; ++k) if (T[k].up == i) order(k, post);
    if (post) exp_[ne++] = i;
}
int vp_main (void)
{
    static const u_json_type_t ty[] = { U_JSON_TYPE_STRING, U_JSON_TYPE_NUMBER, U_JSON_TYPE_TRUE, U_JSON_TYPE_FALSE, U_JSON_TYPE_NULL, U_JSON_TYPE_ARRAY, U_JSON_TYPE_OBJECT };
    char *out = NULL, *out2 = NULL, *p, *q; u_json_t *back = NULL; int i, k, rc, gen, named, ord[NIT + 1];
    vp_use_allocator();
    gen = vp_pick(0, 1);
    for (i = 0; i <= NIT; ++i)
    {
        u_json_t *j = NULL;
        const char *key; int c[NIT + 1], nc = 0;
        if (i) { for (k = 0; k < i; ++k) if (T[k].kind >= 5) c[nc++] = k; T[i].up = c[vp_pick(0, nc - 1)]; T[i].kind = vp_pick(0, 6); }
        else { T[i].up = -1; T[i].kind = vp_pick(5, 6); }
        T[i].key[0] = (char) ('a' + i); T[i].key[1] = '\0';
        named = i && T[T[i].up].kind == 6 ? 2 : vp_pick(0, 1);  /* names mean something in objects, and do no harm elsewhere */
        if (i == 1 && named == 2) { vp_str(T[i].key, KN); named = isstr(T[i].key) ? 2 : 3; }
        key = named ? T[i].key : NULL;
        T[i].val[0] = (char) ('1' + i); T[i].val[1] = '\0';
        if (gen)
        {
            VP_ASSERT(u_json_new(&j) == 0 && u_json_set_type(j, ty[T[i].kind]) == 0, "an item of any type");
            rc = u_json_set_key(j, key);
            if (rc == 0 && T[i].kind < 2) VP_ASSERT(u_json_set_val(j, T[i].val) == 0, "its value");
            if (rc) { u_json_free(j); j = NULL; }
        }
        else switch (T[i].kind)
        {
            case 0: rc = u_json_new_string(key, T[i].val, &j); break;
            case 1: rc = u_json_new_number(key, T[i].val, &j); break;
            case 2: case 3: rc = u_json_new_bool(key, (char) (T[i].kind == 2), &j); break;
            case 4: rc = u_json_new_null(key, &j); break;
            case 5: rc = u_json_new_array(key, &j); break;
            default: rc = u_json_new_object(key, &j); break;
        }
        VP_ASSERT((rc == 0) == (named != 3), "names are legal strings");
        if (rc) break;
        T[i].j = j; nt = i + 1;
        if (i) VP_ASSERT(u_json_add(T[T[i].up].j, j) == 0, "add");
    }
    enc(0);
    VP_ASSERT(u_json_encode(T[0].j, &out) == 0, "encode");
    VP_ASSERT(u_json_decode(out, &back) == 0, "what is written out can be read back");
    VP_ASSERT(u_json_encode(back, &out2) == 0 && strcmp(out, out2) == 0, "and is the same");
    for (p = q = out2; *p; ++p) if (*p != ' ') *q++ = *p;
    *q = '\0';
    for (p = q = want; *p; ++p) if (*p != ' ') *q++ = *p;
    *q = '\0';
    VP_ASSERT(strcmp(out2, want) == 0, "the text is that of the tree");
    for (k = 0; k < 2; ++k)
    {
        at = ne = 0; order(0, k);
        u_json_walk(T[0].j, k ? U_JSON_WALK_POSTORDER : U_JSON_WALK_PREORDER, 3, pre, ord);
        VP_ASSERT(at == nt && memcmp(ord, exp_, sizeof(int) * (size_t) nt) == 0, "every item is visited once, in order");
    }
    vp_free(out); vp_free(out2);
    u_json_free(T[0].j); u_json_free(back);
    VP_ASSERT(vp_live == 0, "nothing is left behind");
    return 0;
}
#elif defined(H_NAMES)
/* items found by position and by name, whatever the keys and their lengths,
 * and whatever is missing for an index */
static u_json_t *root, *c[2], *e[2][2];
static char name[2][140];
static int knd[2];                          /* 0: an integer, 1: an array of two, 2: an object of one */

static void full (int i, int j, char *b)     /* the name of the j-th item of child i, child i itself (-1) */
{
    strcpy(b, ".."); strcat(b, name[i]);
    if (j >= 0 && knd[i] == 1) { size_t n = strlen(b); b[n] = '['; b[n + 1] = (char) ('0' + j); b[n + 2] = ']'; b[n + 3] = '\0'; }
    if (j >= 0 && knd[i] == 2) { strcat(b, "."); strcat(b, name[1 - i]); }
}

int vp_main (void)
{
    char nm[6][600], rel[600], v[2] = { 0, 0 };
    u_json_t *it[6], *x;
    int i, j, k, n, indexed, fails, same, failed = 0;
    vp_use_allocator();
    vp_fail_at = -1;
    VP_ASSERT(u_json_new_object(NULL, &root) == 0, "object");
    for (i = 0; i < 2; ++i)
    {
#ifdef LONG
        /* around the longest key, two of which don't fit in a name */
        n = (int []) { 1, 123, 124, 125, 126 } [vp_pick(0, 4)];
        memset(name[i], 'k', (size_t) n); name[i][n] = '\0';
#else
        for (n = 0, j = vp_pick(0, LEN); n < j; ++n) name[i][n] = "a.[1]"[vp_pick(0, 4)];
#endif
        knd[i] = vp_pick(0, 2);
    }
    for (n = i = 0; i < 2; ++i)
    {
        if (knd[i] == 0) VP_ASSERT(u_json_new_int(name[i], i, &c[i]) == 0, "number");
        else VP_ASSERT((knd[i] == 1 ? u_json_new_array : u_json_new_object)(name[i], &c[i]) == 0, "container");
        VP_ASSERT(u_json_add(root, c[i]) == 0, "add");
        full(i, -1, nm[n]); it[n++] = c[i];
        for (j = 0; j < knd[i] % 2 * 2 + knd[i] / 2; ++j)
        {
            v[0] = (char) ('0' + j);
            VP_ASSERT(u_json_new_number(knd[i] == 2 ? name[1 - i] : NULL, v, &e[i][j]) == 0 && u_json_add(c[i], e[i][j]) == 0, "item");
            full(i, j, nm[n]); it[n++] = e[i][j];
        }
    }
#ifdef FAILS
    vp_fail_at = vp_nalloc + vp_pick(0, FAILS);
    fails = vp_nalloc;
#endif
    indexed = vp_bool();
    if (indexed)
    {
        failed = u_json_index(root) != 0;
#ifdef FAILS
        fails = vp_fail_at < vp_nalloc;
        VP_ASSERT(!failed || fails, "indexing fails only for want of memory");
#else
        VP_ASSERT(!failed, "indexing succeeds");
#endif
    }
    (void) fails;
    for (i = 0; i < 2; ++i)
        if (knd[i] == 1)
        {
            VP_ASSERT(u_json_array_count(c[i]) == 2, "count");
            for (j = 0; j < 2; ++j) VP_ASSERT(u_json_array_get_nth(c[i], (unsigned) j) == e[i][j], "positions don't depend on names, nor on the index");
            VP_ASSERT(u_json_array_get_nth(c[i], 2) == NULL, "nothing past the end");
        }
    for (k = 0; k < n; ++k)
    {
        double d = 7; char tf; long l = 7;
        x = u_json_cache_get(root, nm[k]);
        if (!indexed || failed) { VP_ASSERT(x == NULL, "no names without an index"); continue; }
        /* an item of that name, the first one of those that share it */
        for (same = 0, j = 0; j < n; ++j) same |= x == it[j] && strcmp(nm[j], nm[k]) == 0;
        if (strlen(nm[k]) < U_JSON_FQN_SZ) VP_ASSERT(same, "names find an item of that name");
        else VP_ASSERT(x == NULL || same, "names that are too long find no other item");
        if (x == it[k] && u_json_get_val(x))
        {
            VP_ASSERT(u_json_cache_get_val(root, nm[k]) == u_json_get_val(x), "value by name");
            VP_ASSERT(u_json_cache_get_int(root, nm[k], &l) == 0 && l == u_json_get_val(x)[0] - '0', "integer by name");
            VP_ASSERT(u_json_cache_get_real(root, nm[k], &d) == 0 && d == (double) l, "real by name");
            VP_ASSERT(u_json_cache_get_bool(root, nm[k], &tf) != 0, "not a truth value");
        }
    }
    if (indexed && !failed)
        for (i = 0; i < 2; ++i)
            if (knd[i])
            {
                /* relative names: the item, or one of the same (ambiguous) full name; the root is called "." */
                full(i, 0, rel);
                x = u_json_cache_get(c[i], rel + strlen(name[i]) + 2);
                same = x == root && !strcmp(rel + strlen(name[i]) + 2, ".");
                for (j = 0; j < n; ++j) same |= x == it[j] && (!strcmp(nm[j], rel) || !strcmp(nm[j], rel + strlen(name[i]) + 2));
                VP_ASSERT(x == NULL || same, "relative names find an item of that name");
                if (strlen(rel) < U_JSON_FQN_SZ) VP_ASSERT(x != NULL, "relative names find what is there");
            }
    vp_fail_at = -1;
    /* names mean nothing to an item that is gone */
    VP_ASSERT(u_json_unindex(root) == 0 && u_json_remove(c[0]) == 0, "remove");
    VP_ASSERT(u_json_index(root) == 0, "index");
    full(1, -1, nm[0]);
    if (strlen(nm[0]) < U_JSON_FQN_SZ && !knd[1]) VP_ASSERT(u_json_cache_get(root, nm[0]) == c[1], "what stays is found");
    u_json_free(root);
    VP_ASSERT(vp_live == 0, "nothing is left behind");
    return 0;
}
#elif defined(H_WIDE)
/* containers of many items: positions and names of more than one digit, an index that grows */
int vp_main (void)
{
    static const int cnt[] = { 9, 10, 11, 12, 100, 101, 130 };
    static u_json_t *e[140]; static char text[2000], nm[40], key[12];
    u_json_t *root = NULL, *box = NULL; u_json_it_t it; char *out = NULL; int n = cnt[vp_pick(0, 6)], arr = vp_pick(0, 1), how = vp_pick(0, 1), gone, i, k, m, pass; size_t t = 0; char dig[2] = { 0, 0 };
    vp_use_allocator();
    if (how)
    {
        /* read from a text */
        t += (size_t) sprintf(text, "{\"b\":%c", arr ? '[' : '{');
        for (i = 0; i < n; ++i) { if (!arr) t += (size_t) sprintf(text + t, "\"k%d\":", i); t += (size_t) sprintf(text + t, i < n - 1 ? "%d," : "%d", i); }
        sprintf(text + t, arr ? "]}" : "}}");
        /* the first item is any digit */
        text[arr ? 6 : 11] = dig[0] = vp_of("0123456789");
        VP_ASSERT(u_json_decode(text, &root) == 0 && (box = u_json_child_first(root)) != NULL, "a text with many items");
        u_json_it(u_json_child_first(box), &it);
        for (i = 0; i < n; ++i) VP_ASSERT((e[i] = u_json_it_next(&it)) != NULL, "every item is read");
    }
    else
    {
        VP_ASSERT(u_json_new_object(NULL, &root) == 0 && (arr ? u_json_new_array : u_json_new_object)("b", &box) == 0 && u_json_add(root, box) == 0, "containers");
        for (i = 0; i < n; ++i) { sprintf(key, "k%d", i); if (i == 0) dig[0] = vp_of("0123456789"); VP_ASSERT((i ? u_json_new_int(arr ? NULL : key, i, &e[i]) : u_json_new_number(arr ? NULL : key, dig, &e[i])) == 0 && u_json_add(box, e[i]) == 0, "items"); }
    }
    for (pass = 0, gone = -1; pass < 2; ++pass)
    {
        VP_ASSERT(u_json_index(root) == 0, "index");
        for (i = k = 0; i < n; ++i)
        {
            long l = -1;
            if (i == gone) continue;
            sprintf(nm, arr ? "..b[%d]" : "..b.k%d", arr ? k : i);
            VP_ASSERT(u_json_cache_get(root, nm) == e[i] && u_json_cache_get(box, nm + 3) == e[i], "every item is found by name");
            VP_ASSERT(u_json_cache_get_int(root, nm, &l) == 0 && l == (i ? i : dig[0] - '0'), "with its value");
            if (arr) VP_ASSERT(u_json_array_get_nth(box, (unsigned) k) == e[i], "and by position");
            ++k;
        }
        if (arr) VP_ASSERT(u_json_array_count(box) == (unsigned) k && u_json_array_get_nth(box, (unsigned) k) == NULL, "they are counted");
        sprintf(nm, arr ? "..b[%d]" : "..b.k%d", n + 1);
        VP_ASSERT(u_json_cache_get(root, nm) == NULL, "and nothing else is found");
        u_json_it(u_json_child_last(box), &it);
        for (i = n; --i >= 0; ) if (i != gone) VP_ASSERT(u_json_it_prev(&it) == e[i], "backwards too");
        if (pass) break;
        m = vp_pick(0, 3);
        gone = m == 0 ? 0 : m == 1 ? n - 1 : m == 2 ? n / 2 : 9 % n;
        VP_ASSERT(u_json_unindex(root) == 0, "unindex");
        VP_ASSERT(u_json_remove(e[gone]) == 0, "remove");
    }
    VP_ASSERT(u_json_encode(root, &out) == 0, "encode");
    for (i = 0, m = 1; out[i]; ++i) m += out[i] == ',';
    VP_ASSERT(m == n - 1, "the text has them all");
    vp_free(out);
    u_json_free(root);
    VP_ASSERT(vp_live == 0, "nothing is left behind");
    return 0;
}
#else
/* edits */
#define M (NOPS + 6)
static struct { u_json_t *j; int up, cont, arr; char key[3]; char v; int gone; } T[M];
static int nt;                      /* items made, in order of creation = order among siblings */
static int indexed;

static int alive (int i) { return !T[i].gone; }
static size_t fqn (int i, char *b)
{
    size_t n;
    int k, idx = 0;
    if (T[i].up < 0) { strcpy(b, "."); return 1; }
    n = fqn(T[i].up, b);
    if (T[T[i].up].arr)
    {
        for (k = 0; k < i; ++k) if (alive(k) && T[k].up == T[i].up) ++idx;
        b[n++] = '['; b[n++] = (char) ('0' + idx); b[n++] = ']'; b[n] = '\0';
    }
    else { b[n++] = '.'; strcpy(b + n, T[i].key); n += strlen(T[i].key); }
    return n;
}

static char want[400];
static size_t wn;
static void w (const char *s) { strcpy(want + wn, s); wn += strlen(s); }
static void enc (int i)
{
    int k, n = 0;
    char b[2] = { 0, 0 };
    if (T[i].up >= 0 && !T[T[i].up].arr) { w("\""); w(T[i].key); w("\":"); }
    if (!T[i].cont) { b[0] = T[i].v; w(b); return; }
    w(T[i].arr ? "[" : "{");
    for (k = i + 1; k < nt; ++k)
        if (alive(k) && T[k].up == i) { if (n++) w(","); enc(k); }
    w(T[i].arr ? "]" : "}");
}

static void check (int r)
{
    char b[64], *out = NULL, *p, *q;
    u_json_it_t it;
    int i, k, n, last;
    for (i = 0; i < nt; ++i)
    {
        if (!alive(i)) continue;
        if (!T[i].cont)
        {
            VP_ASSERT(u_json_get_val(T[i].j)[0] == T[i].v && u_json_get_val(T[i].j)[1] == '\0', "value");
            VP_ASSERT(u_json_child_first(T[i].j) == NULL, "a leaf has no children");
        }
        else
        {
            VP_ASSERT(u_json_get_val(T[i].j) == NULL, "a container has no value");
            u_json_it(u_json_child_first(T[i].j), &it);
            for (n = 0, last = -1, k = i + 1; k < nt; ++k)
                if (alive(k) && T[k].up == i)
                {
                    VP_ASSERT(u_json_it_next(&it) == T[k].j, "iteration visits the children in order");
                    if (T[i].arr) VP_ASSERT(u_json_array_get_nth(T[i].j, (unsigned) n) == T[k].j, "positional access");
                    ++n; last = k;
                }
            VP_ASSERT(u_json_it_next(&it) == NULL, "and no others");
            VP_ASSERT(u_json_child_last(T[i].j) == (last < 0 ? NULL : T[last].j), "last child");
            if (T[i].arr)
            {
                VP_ASSERT(u_json_array_count(T[i].j) == (unsigned) n, "count");
                VP_ASSERT(u_json_array_get_nth(T[i].j, (unsigned) n) == NULL, "no element past the end");
            }
            u_json_it(u_json_child_last(T[i].j), &it);
            for (k = nt; --k > i; )
                if (alive(k) && T[k].up == i) VP_ASSERT(u_json_it_prev(&it) == T[k].j, "backward iteration");
            VP_ASSERT(u_json_it_prev(&it) == NULL, "and no others");
        }
        if (indexed)
        {
            fqn(i, b);
            VP_ASSERT(u_json_cache_get(T[0].j, b) == T[i].j, "full name");
            if (T[i].up >= 0)
            {
                size_t n0;
                char u[64];
                n0 = fqn(T[i].up, u);
                VP_ASSERT(u_json_cache_get(T[T[i].up].j, b + n0) == T[i].j, "relative name");
                if (!T[i].cont) { const char *v = u_json_cache_get_val(T[0].j, b); long l = -1; VP_ASSERT(v && v[0] == T[i].v, "value by name"); VP_ASSERT(u_json_cache_get_int(T[0].j, b, &l) == 0 && l == T[i].v - '0', "integer by name"); }
            }
        }
    }
    if (indexed) VP_ASSERT(u_json_cache_get(T[0].j, "..zz") == NULL, "no such name");
    /* the text of one item: all of it and nothing else */
    wn = 0; enc(r);
    VP_ASSERT(u_json_encode(T[r].j, &out) == 0, "encode");
    for (p = q = out; *p; ++p) if (*p != ' ') *q++ = *p;
    *q = '\0';
    VP_ASSERT(strcmp(out, want) == 0, "the text of an item is that of the item and its descendants");
    vp_free(out);
}

static int make (int up, int cont, int arr)
{
    int i = nt++;
    T[i].up = up; T[i].cont = cont; T[i].arr = arr;
    T[i].key[0] = (char) ('a' + i); T[i].key[1] = '\0'; T[i].v = (char) ('1' + i % 9);
    if (up < 0 || T[up].arr) T[i].key[0] = '\0';
    if (cont) VP_ASSERT((arr ? u_json_new_array : u_json_new_object)(T[i].key, &T[i].j) == 0, "container");
    else VP_ASSERT(u_json_new_int(T[i].key, T[i].v - '0', &T[i].j) == 0, "number");
    return i;
}

static void kill (int i)
{
    int k;
    T[i].gone = 1;
    for (k = i + 1; k < nt; ++k) if (alive(k) && T[k].up == i) kill(k);
}

int vp_main (void)
{
    int j, i, k, rc;
    char val[2];
    vp_use_allocator();
    make(-1, 1, vp_pick(0, 1));
    for (i = 1; i <= PRE; ++i)
    {
        k = make(0, i > 1, vp_pick(0, 1));
        VP_ASSERT(u_json_add(T[0].j, T[k].j) == 0, "add");
    }
    for (j = 0; j < NOPS; ++j)
    {
        i = vp_pick(0, nt - 1);
        if (!alive(i)) continue;
        switch (vp_pick(1, 6))
        {
            case 1: /* a leaf or an empty container goes into item i */
                if (nt >= M) break;
                rc = vp_pick(0, 2);
                k = make(i, rc > 0, rc > 1);
                rc = u_json_add(T[i].j, T[k].j);
                VP_ASSERT((rc == 0) == (T[i].cont && !indexed), "only containers that are not indexed take children");
                if (rc) { T[k].gone = 1; u_json_free(T[k].j); }
                break;
            case 2:
                if (i == 0) break;
                rc = u_json_remove(T[i].j);
                VP_ASSERT((rc == 0) == !indexed, "nothing is removed from an indexed tree");
                if (rc == 0) kill(i);
                break;
            case 3:
                if (T[i].cont) break;
                val[0] = (char) vp_u8(); val[1] = '\0';
                VP_ASSUME(val[0] != '\0');
                rc = u_json_set_val_ex(T[i].j, val, 1);
                VP_ASSERT((rc == 0) == (val[0] >= '0' && val[0] <= '9'), "numbers only");
                if (rc == 0) T[i].v = val[0];
                break;
            case 4:
                rc = u_json_index(T[i].j);
                VP_ASSERT((rc == 0) == (i == 0 || indexed), "a tree is indexed from its top");
                if (rc == 0) indexed = 1;
                break;
            case 5:
                VP_ASSERT(u_json_unindex(T[0].j) == 0, "unindex");
                indexed = 0;
                for (k = 0; k < nt; ++k) if (alive(k)) VP_ASSERT(u_json_cache_get(T[k].j, ".") == NULL, "no index any more");
                break;
            default: /* by name */
                if (indexed && !T[i].cont)
                {
                    char b[64];
                    fqn(i, b);
                    T[i].v = (char) ('0' + vp_pick(0, 1) * 7); val[0] = T[i].v; val[1] = '\0';
                    VP_ASSERT(u_json_cache_set_tv(T[0].j, b, vp_bool() ? U_JSON_TYPE_NUMBER : U_JSON_TYPE_UNKNOWN, val) == 0, "set by name");
                }
                break;
        }
        check(i == 0 || !alive(i) ? 0 : i);
    }
    u_json_free(T[0].j);
    VP_ASSERT(vp_live == 0, "nothing is left behind");
    return 0;
}
#endif
