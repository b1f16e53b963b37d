#include "vp.h"
#include <stdio.h>
#include <u/libu.h>

/* the reference: a table of items in order of creation */
#if !defined(KL)
  #define KL 24
#endif
#define MN 40
static struct { int up, has, dead; char key[KL], val[KL]; } M[MN];
static int nm = 1;   /* item 0 is the root */

static int m_child (int up, const char *key, int n)
{
    int i;
    for (i = 1; i < nm; ++i)
        if (!M[i].dead && M[i].up == up && (key == NULL || strcmp(M[i].key, key) == 0) && n-- == 0) return i;
    return -1;
}

static int m_add (int up, const char *key, size_t n)
{
    int i = nm++;
    VP_ASSERT(i < MN && n < KL, "harness: table too small");
    M[i].up = up; M[i].has = 0; M[i].dead = 0;
    memcpy(M[i].key, key, n); M[i].key[n] = '\0';
    return i;
}

static int blank (char c) { return c == ' ' || c == '\t'; }

static void m_val (int i, const char *v, size_t n)
{
    while (n && blank(v[n - 1])) --n;
    while (n && blank(*v)) ++v, --n;
    VP_ASSERT(n < KL, "harness: value too long");
    memcpy(M[i].val, v, n); M[i].val[n] = '\0'; M[i].has = 1;
}

/* add (or overwrite) a possibly dotted key */
static int m_set (int up, const char *key, const char *v, int over)
{
    const char *p = strchr(key, '.');
    char part[KL];
    size_t n = p ? (size_t) (p - key) : strlen(key);
    int i;
    VP_ASSERT(n < KL, "harness: key too long");
    memcpy(part, key, n); part[n] = '\0';
    i = m_child(up, part, 0);
    if (p)
        return m_set(i < 0 ? m_add(up, part, n) : i, p + 1, v, over);
    if (i < 0 || !over) i = m_add(up, part, n);
    if (v) m_val(i, v, strlen(v)); else M[i].has = 0;
    return i;
}

static void m_del (int i)
{
    int k;
    M[i].dead = 1;
    for (k = 1; k < nm; ++k) if (!M[k].dead && M[k].up == i) m_del(k);
}

/* the dotted lookup: first child for all parts but the last, n-th for that */
static int m_get (int up, const char *key, int n)
{
    const char *p = strchr(key, '.');
    char part[KL];
    size_t l = p ? (size_t) (p - key) : strlen(key);
    int i;
    memcpy(part, key, l); part[l] = '\0';
    i = m_child(up, part, p ? 0 : n);
    return i < 0 || !p ? i : m_get(i, p + 1, n);
}

static void same (u_config_t *c, int m)
{
    int i, j;
    u_config_t *k;
    for (i = 0; (j = m_child(m, NULL, i)) >= 0; ++i)
    {
        k = u_config_get_child_n(c, NULL, i);
        VP_ASSERT(k != NULL, "an item of the text is there");
        VP_ASSERT(strcmp(u_config_get_key(k), M[j].key) == 0, "under its name and at its place");
        VP_ASSERT((u_config_get_value(k) != NULL) == M[j].has, "with a value if the text gives one");
        if (M[j].has) VP_ASSERT(strcmp(u_config_get_value(k), M[j].val) == 0, "and with that value");
        same(k, j);
    }
    VP_ASSERT(u_config_get_child_n(c, NULL, i) == NULL, "nothing else is there");
    VP_ASSERT((u_config_has_children(c) != 0) == (i > 0), "items with subkeys are known");
}

/* an fgets() over memory */
struct src { const char *t; size_t at, n; };
static char *src_gets (void *arg, char *buf, size_t size)
{
    struct src *s = arg;
    size_t i = 0;
    if (s->at == s->n) return NULL;
    while (i + 1 < size && s->at < s->n)
        if ((buf[i++] = s->t[s->at++]) == '\n') break;
    buf[i] = '\0';
    return buf;
}

#if defined(H_TEXT) || defined(H_LINES) || defined(H_INC) || defined(H_OOM) || defined(H_FILE)
/* what the text says: 0 the table has it, -1 it is malformed */
static int ref (const char *t, size_t n, int over)
{
    static int sec[MN]; static char last[KL];
    int lev = 0; char ln[LL]; size_t i = 0, a, b, k, l;
    sec[0] = 0; last[0] = '\0';
    while (i < n)
    {
        /* the line, without comment */
        for (l = 0; i < n && t[i] != '\n'; ++i)
        {
            if (t[i] == '#' && (i == 0 || t[i - 1] != '\\')) { while (i < n && t[i] != '\n') ++i; break; }
            if (t[i] == '#') ln[l - 1] = '#'; else { VP_ASSERT(l < LL, "harness: line too long"); ln[l++] = t[i]; }
        }
        if (i < n) ++i;
        while (l && (ln[l - 1] == '\r')) --l;
        for (a = 0; a < l; ++a) VP_ASSUME(ln[a] != '\r');    /* carriage returns end lines: anything else is not specified */
        for (a = 0; a < l && blank(ln[a]); ++a) ;
        while (l > a && blank(ln[l - 1])) --l;
        if (a == l) continue;
        if (ln[a] == '{' || ln[a] == '}')
        {
            if (l > a + 1) return -1;
            if (ln[a] == '}') { if (lev-- == 0) return -1; last[0] = '\0'; continue; }
            if (last[0] == '\0') return -1;
            VP_ASSUME(strchr(last, '.') == NULL);      /* dotted section names are not specified */
            k = (size_t) (over ? m_child(sec[lev], last, 0) : -1);
            if ((int) k < 0) k = (size_t) m_add(sec[lev], last, strlen(last));
            VP_ASSERT(lev + 1 < MN, "harness: too deep");
            sec[++lev] = (int) k; last[0] = '\0';
            continue;
        }
        for (b = a; b < l && !blank(ln[b]); ++b) ;
        VP_ASSERT(b - a < KL && l - b < KL + 4, "harness: key or value too long");
        memcpy(last, ln + a, b - a); last[b - a] = '\0';
        while (b < l && blank(ln[b])) ++b;
        if (b == l) continue;   /* may be a section */
        {
            static char v[KL];
            memcpy(v, ln + b, l - b); v[l - b] = '\0';
            m_set(sec[lev], last, v, over && strcmp(last, "include") && strcmp(last, "-include"));
        }
        last[0] = '\0';
    }
    return lev ? -1 : 0;
}
#endif

#if defined(H_TEXT)
/* any text over the alphabet; OVER: read over an earlier configuration */
int vp_main (void)
{
    static char t[N + 1], *pre[] = { "", PRE };
    u_config_t *c = NULL;
    size_t n; int rc, r, over = 0, w = vp_pick(0, (int) (sizeof pre / sizeof *pre) - 1);
    static char full[N + 40];
    vp_use_allocator();
    n = vp_stra(t, N, ABC);
    strcpy(full, pre[w]); memcpy(full + strlen(pre[w]), t, n + 1); n += strlen(pre[w]);
#if defined(OVER)
    {
        struct src s = { "a 1\na 2\nb\n{\na 3\n}\n", 0, 0 };
        s.n = strlen(s.t);
        ref(s.t, s.n, 0);
        VP_ASSERT(u_config_create(&c) == 0 && u_config_load_from(c, src_gets, &s, 0) == 0, "a well-formed text is loaded");
        s.t = full; s.n = n; s.at = 0;
        over = vp_bool();
        r = ref(full, n, over);
        rc = u_config_load_from(c, src_gets, &s, over);
    }
#else
    r = ref(full, n, over);
    rc = u_config_load_from_buf(full, n, &c);
#endif
    if (r) VP_ASSERT(rc != 0, "malformed text is reported");
    else
    {
        VP_ASSERT(rc == 0, "well-formed text is accepted");
        same(c, 0);
    }
#if !defined(OVER)
    if (rc == 0)
#endif
    VP_ASSERT(u_config_free(c) == 0, "free");
    VP_ASSERT(vp_live == 0, "every block is released");
    return rc != 0;
}
#endif

#if defined(H_ANY)
/* arbitrary bytes: no faults, no leaks, an answer */
int vp_main (void)
{
    char *t; u_config_t *c = NULL; size_t n = (size_t) vp_pick(0, N); int rc;
    static const char *pre[] = { "", "a 1\nb ", "a\n{\n" };
    const char *p = pre[vp_pick(0, 2)];
    vp_use_allocator();
    t = malloc(strlen(p) + n + 1);
    memcpy(t, p, strlen(p)); vp_bytes(t + strlen(p), n);
    vp_fail_at = vp_pick(-1, FAILS);
    rc = u_config_load_from_buf(t, strlen(p) + n, &c);
    if (rc == 0) { VP_ASSERT(c != NULL, "a tree is returned"); u_config_free(c); }
    VP_ASSERT(vp_live == 0, "every block is released");
    free(t);
    return rc != 0;
}
#endif

#if defined(H_LINES)
/* lines around the sizes the reader works with */
int vp_main (void)
{
    static char t[2 * LL]; static const int len[] = { LENS };
    u_config_t *c = NULL; int rc, r = 0, i, n, form, k;
    size_t at = 0;
    vp_use_allocator();
    n = len[vp_pick(0, (int) (sizeof len / sizeof *len) - 1)];
    form = vp_pick(0, 3);
    /* a line of n characters: a value, a key, blanks around a value, a comment */
    memset(t, form == 2 ? ' ' : 'x', (size_t) n);
    if (form == 0 || form == 2) { t[0] = 'k'; t[1] = ' '; }
    if (form == 1) { t[n - 2] = ' '; }
    if (form == 3) { t[0] = '#'; }
    k = vp_pick(0, 2);
    for (i = 0; i < 3; ++i) if (form != 1 || i == 2) { t[n - 1 - i] = (char) vp_u8(); VP_ASSUME(t[n - 1 - i] > ' ' && t[n - 1 - i] < 127 && t[n - 1 - i] != '#' && t[n - 1 - i] != '$' && t[n-1-i] != '.'); }
    if (form == 1) t[n - 1] = 'v';
    at = (size_t) n;
    if (k) t[at++] = '\n';
    if (k == 2) { memcpy(t + at, "b 2", 3); at += 3; }
    r = ref(t, at, 0);
    if (vp_bool())
        rc = u_config_load_from_buf(t, at, &c);
    else
    {
        struct src s = { t, 0, at };
        VP_ASSERT(u_config_create(&c) == 0, "create");
        rc = u_config_load_from(c, src_gets, &s, 0);
        if (rc) u_config_free(c);
    }
    VP_ASSERT(r == 0, "harness: the text is well-formed");
    if (n < 2048) VP_ASSERT(rc == 0, "lines shorter than 2048 are accepted");
    if (rc == 0) { same(c, 0); u_config_free(c); }
    VP_ASSERT(vp_live == 0, "every block is released");
    return rc != 0;
}
#endif

#if defined(H_OOM)
/* every allocation failing in turn: the whole tree or a report */
int vp_main (void)
{
    static const char *t[] = { "a 1\n", "a.b 1\nc 2\n", "a\n{\nb x\n}\n", "a\n{\nb\n{\n}\n}\nc 3", "a 1\nb 2${a}3\n" };
    static const char *flat[] = { "a 1\n", "a.b 1\nc 2\n", "a\n{\nb x\n}\n", "a\n{\nb\n{\n}\n}\nc 3", "a 1\nb 213\n" };
    u_config_t *c = NULL; int rc, k = vp_pick(0, 4); static char b[64];
    vp_use_allocator();
    strcpy(b, t[k]);
    vp_fail_at = vp_pick(-1, FAILS);
    rc = u_config_load_from_buf(b, strlen(b), &c);
    if (rc == 0) { ref(flat[k], strlen(flat[k]), 0); same(c, 0); u_config_free(c); }
    else VP_ASSERT(vp_fail_at >= 0 && vp_nalloc > vp_fail_at, "a load fails only for want of memory");
    VP_ASSERT(vp_live == 0, "every block is released");
    return rc != 0;
}
#endif

#if defined(H_EDIT)
/* histories of edits */
static const char *K[] = { KEYS };
#define NK ((int) (sizeof K / sizeof *K))
static void look (u_config_t *c)
{
    int i, n, j; u_config_t *x, *y;
    for (i = 0; i < NK; ++i)
        for (n = 0; n < 2; ++n)
        {
            j = m_get(0, K[i], n);
            x = y = NULL;
            VP_ASSERT((u_config_get_subkey_nth(c, K[i], n, &x) == 0) == (j >= 0), "lookups find what is there");
            if (j >= 0)
            {
                VP_ASSERT(strcmp(u_config_get_key(x), M[j].key) == 0 && (u_config_get_value(x) != NULL) == M[j].has && (!M[j].has || strcmp(u_config_get_value(x), M[j].val) == 0), "the item looked up");
                if (n == 0) VP_ASSERT(u_config_get_subkey(c, K[i], &y) == 0 && x == y && u_config_get_subkey_value(c, K[i]) == u_config_get_value(x), "all lookups agree");
            }
            else if (n == 0) VP_ASSERT(u_config_get_subkey(c, K[i], &y) != 0 && u_config_get_subkey_value(c, K[i]) == NULL, "all lookups agree");
            if (strchr(K[i], '.') == NULL) VP_ASSERT(u_config_get_child_n(c, K[i], n) == x, "children by name and position");
        }
}

/* the object an item of the table stands for */
static u_config_t *obj (u_config_t *root, int m)
{
    int i, k; u_config_t *up;
    if (m == 0) return root;
    up = obj(root, M[m].up);
    for (k = 0; (i = m_child(M[m].up, NULL, k)) != m; ++k) ;
    return u_config_get_child_n(up, NULL, k);
}

int vp_main (void)
{
    u_config_t *c = NULL, *x; int i, k, m, nl = 0, l[MN]; char v[4];
    vp_use_allocator();
    VP_ASSERT(u_config_create(&c) == 0, "create");
    for (i = 0; i < NOPS; ++i)
    {
        /* the item to work on */
        for (k = 0, nl = 0; k < nm; ++k) if (!M[k].dead) l[nl++] = k;
        m = l[vp_pick(0, nl - 1)];
        x = obj(c, m);
        switch (vp_pick(0, 5))
        {
            case 0:
                k = vp_pick(0, NK - 1); v[0] = (char) ('0' + i); v[1] = ' '; v[2] = '\0';
                VP_ASSERT(u_config_add_key(x, K[k], v) == 0, "add"); m_set(m, K[k], v, 0);
                break;
            case 1:
                k = vp_pick(0, NK - 1); v[0] = (char) ('0' + i); v[1] = '\0';
                VP_ASSERT(u_config_set_key(x, K[k], v) == 0, "set"); m_set(m, K[k], v, 1);
                break;
            case 2:
            {
                u_config_t *y = NULL;
                k = vp_pick(0, 1);
                VP_ASSERT(u_config_add_child(x, K[k], &y) == 0, "add a child"); m_add(m, K[k], strlen(K[k]));
                VP_ASSERT(y != NULL && y == obj(c, nm - 1), "the child added is returned");
                break;
            }
            case 3:
                k = vp_pick(0, 2);
                if (k == 1 && u_config_get_value(x) != NULL && m)
                {   /* its own */
                    VP_ASSERT(u_config_set_value(x, u_config_get_value(x)) == 0, "give an item its own value");
                    break;
                }
                if (k == 2)
                {   /* a change that fails changes nothing */
                    if ((k = vp_pick(0, 3)) > 0) vp_fail_at = vp_nalloc + k - 1;
                    VP_ASSERT(u_config_set_value(x, k ? "z" : "z${") != 0 || vp_fail_at >= vp_nalloc, "a failure is reported");
                    if (vp_fail_at >= vp_nalloc) { vp_fail_at = -1; VP_ASSUME(0); }
                    vp_fail_at = -1;
                    break;
                }
                v[0] = ' '; v[1] = (char) vp_u8(); v[2] = '\0'; VP_ASSUME(v[1] != '$');
                VP_ASSERT(u_config_set_value(x, v) == 0, "give a value");
                if (m) m_val(m, v, strlen(v));
                else VP_ASSERT(u_config_get_value(c) != NULL, "the root may have a value");
                break;
            case 4:
                VP_ASSERT(u_config_set_value(x, NULL) == 0 && u_config_get_value(x) == NULL, "take the value away"); M[m].has = 0;
                break;
            default:
                if (m == 0) { VP_ASSERT(u_config_del_child(c, c) != 0, "only children are removed"); break; }
                if (vp_bool() && M[m].up) { VP_ASSERT(u_config_del_child(c, x) != 0, "only direct children are removed"); break; }
                VP_ASSERT(u_config_del_child(obj(c, M[m].up), x) == 0, "remove"); m_del(m);
                break;
        }
        same(c, 0);
    }
    look(c);
    u_config_free(c);
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
#endif

#if defined(H_SAVE)
/* save and load back */
static void twin (u_config_t *a, u_config_t *b)
{
    u_config_t *x, *y; int i;
    for (i = 0; (x = u_config_get_child_n(a, NULL, i)) != NULL; ++i)
    {
        y = u_config_get_child_n(b, NULL, i);
        VP_ASSERT(y != NULL, "what was saved is loaded");
        VP_ASSERT(strcmp(u_config_get_key(x), u_config_get_key(y)) == 0, "keys survive");
        VP_ASSERT((u_config_get_value(x) != NULL) == (u_config_get_value(y) != NULL), "values survive");
        if (u_config_get_value(x)) VP_ASSERT(strcmp(u_config_get_value(x), u_config_get_value(y)) == 0, "values survive unchanged");
        twin(x, y);
    }
    VP_ASSERT(u_config_get_child_n(b, NULL, i) == NULL, "nothing else is loaded");
}
static size_t text (char *b, size_t max, int key)
{
    size_t i, n = (size_t) vp_pick(1, (int) max);
    for (i = 0; i < n; ++i)
    {
        b[i] = (char) vp_u8();
        VP_ASSUME(b[i] > ' ' && b[i] < 127 && b[i] != '$');
        if (key) VP_ASSUME(b[i] != '.' && (i || (b[i] != '{' && b[i] != '}')));
        else if (i && i + 1 < n && b[i] == '!') b[i] = ' ';
    }
    b[n] = '\0';
    return n;
}
int vp_main (void)
{
    u_config_t *a = NULL, *b = NULL, *x = NULL, *y = NULL; char k1[N + 1], v1[N + 1], *out, all[64]; int f, rc, rl; size_t cap;
    vp_use_allocator();
    VP_ASSERT(u_config_create(&a) == 0, "create");
    f = vp_pick(0, 3);
    text(k1, f == 0 ? N : 1, 1); text(v1, f == 0 ? 1 : N, 0);
    switch (f)
    {
        case 0: case 1: VP_ASSERT(u_config_add_key(a, k1, v1) == 0, "add"); break;
        case 2:
            VP_ASSERT(u_config_add_child(a, "sec", &x) == 0 && u_config_add_key(x, k1, v1) == 0 && u_config_add_key(x, k1, "2") == 0 && u_config_add_key(a, "z", "3") == 0, "add");
            break;
        default:
            VP_ASSERT(u_config_add_child(a, k1, &x) == 0 && u_config_add_child(x, "t", &y) == 0 && u_config_add_key(y, "d", v1) == 0 && u_config_add_key(x, "e", "1") == 0, "add");
            break;
    }
    cap = (size_t) vp_pick(0, 1) ? 64 : (size_t) vp_pick(1, CAP);
    out = malloc(cap);
    VP_ASSERT(u_config_save_to_buf(a, all, sizeof all) == 0, "saving succeeds when there is room and memory");
    vp_fail_at = vp_pick(-1, FAILS); if (vp_fail_at >= 0) vp_fail_at += vp_nalloc;
    rc = u_config_save_to_buf(a, out, cap);
    vp_fail_at = -1;
    if (rc == 0)
    {
        VP_ASSERT(memchr(out, '\0', cap) != NULL, "the text is terminated");
        VP_ASSERT(strcmp(out, all) == 0, "the text is whole or the saving fails");
        rl = u_config_load_from_buf(out, strlen(out), &b);
        VP_ASSERT(rl == 0, "what was saved can be loaded");
        twin(a, b);
        u_config_free(b);
    }
    u_config_free(a);
    free(out);
    VP_ASSERT(vp_live == 0, "every block is released");
    return rc != 0;
}
#endif

#if defined(H_VAR)
/* variable references */
int vp_main (void)
{
    static char t[N + 1], out[64], name[N + 1]; static const char *A = "ab.s${}";
    u_config_t *c = NULL, *s = NULL, *x = NULL; char va[3]; const char *p, *q, *e; size_t n, l = 0; int rc, where, up, m, bad = 0;
    vp_use_allocator();
    n = vp_stra(t, N, A);
    (void) n;
    va[0] = (char) vp_u8(); VP_ASSUME(va[0] > ' ' && va[0] < 127 && va[0] != '$'); va[1] = '\0';
    VP_ASSERT(u_config_create(&c) == 0, "create");
    VP_ASSERT(u_config_add_key(c, "a", va) == 0 && u_config_add_key(c, "s.a", "2") == 0 && u_config_add_key(c, "s.s", "4 5") == 0, "add");
    m_set(0, "a", va, 0); m_set(0, "s.a", "2", 0); m_set(0, "s.s", "4 5", 0);
    VP_ASSERT(u_config_get_child(c, "s") != NULL, "the section is there");
    s = u_config_get_child(c, "s");
    where = vp_pick(0, 5);
    if (where == 5) { VP_ASSERT(u_config_add_key(c, "b.b.b", "9") == 0, "add"); m_set(0, "b.b.b", "9", 0); }
    switch (where)
    {
        case 0: x = c; up = 0; rc = u_config_set_value(c, t); break;                         /* the root itself */
        case 1: up = 0; rc = u_config_add_key(c, "d", t); x = u_config_get_child(c, "d"); break;
        case 2: up = m_child(0, "s", 0); rc = u_config_set_key(s, "d", t); x = u_config_get_child(s, "d"); break;
        case 3: up = m_child(0, "s", 0); rc = u_config_set_key(c, "s.d", t); x = u_config_get_child(s, "d"); break;
        case 5: up = m_child(m_child(0, "b", 0), "b", 0); rc = u_config_set_key(c, "b.b.d", t); x = u_config_get_child(u_config_get_child(u_config_get_child(c, "b"), "b"), "d"); break;
        default: up = 0; rc = u_config_set_key(c, "a", t); x = u_config_get_child(c, "a"); break;   /* may refer to its own value */
    }
    for (p = t; (q = strstr(p, "${")) != NULL; p = e + 1)
    {
        memcpy(out + l, p, (size_t) (q - p)); l += (size_t) (q - p);
        if ((e = strchr(q + 2, '}')) == NULL) { bad = 1; break; }
        memcpy(name, q + 2, (size_t) (e - q - 2)); name[e - q - 2] = '\0';
        m = m_get(up, name, 0);
        if (m < 0) m = m_get(0, name, 0);
        VP_ASSUME(strcmp(name, "d") != 0);
        if (m > 0 && M[m].has) { memcpy(out + l, M[m].val, strlen(M[m].val)); l += strlen(M[m].val); }
    }
    if (bad) VP_ASSERT(rc != 0 && (where != 4 || strcmp(u_config_get_value(x), va) == 0), "an unfinished reference is reported and changes nothing");
    else
    {
        strcpy(out + l, p);
        VP_ASSERT(rc == 0, "a well-formed value is accepted");
        VP_ASSERT(x != NULL && u_config_get_value(x) != NULL && strcmp(u_config_get_value(x), out) == 0, "references are replaced by the values they name");
    }
    u_config_free(c);
    VP_ASSERT(vp_live == 0, "every block is released");
    return rc != 0;
}
#endif

#if defined(H_INC)
/* includes: files made of a few lines each, any of which may include any other */
static char file[3][96];                /* M, A and B */
static struct src open_[80]; static int nopen, nclose, bad_open, bad_close, partial, over;
static int d_open (const char *uri, void **arg)
{
    int f = strcmp(uri, "/M") == 0 || strcmp(uri, "M") == 0 ? 0 : strcmp(uri, "/A") == 0 ? 1 : strcmp(uri, "/B") == 0 ? 2 : -1;
    if (f < 0 || nopen == bad_open) { if (f >= 0) bad_open = -2; return ~0; }
    VP_ASSERT(nopen < 80, "includes end");
    open_[nopen].t = file[f]; open_[nopen].at = 0; open_[nopen].n = strlen(file[f]);
    *arg = &open_[nopen++];
    return 0;
}
static int d_close (void *arg)
{
    struct src *s = arg;
    VP_ASSERT(s->t != NULL, "no source is closed twice");
    s->t = NULL;
    return nclose++ == bad_close ? ~0 : 0;
}
static char *d_gets (void *arg, char *buf, size_t size)
{
    VP_ASSERT(((struct src *) arg)->t != NULL, "no source is read once closed");
    return src_gets(arg, buf, size);
}
static int d_resolv (const char *uri, char *out, size_t len)
{
    if (strlen(uri) + 2 > len) return ~0;
    out[0] = '/'; strcpy(out + 1, uri);
    return 0;
}

static char flat[4096]; static int eopen, eclose, stray;
/* what file f stands for; -1 when it can't be had */
static int expand (int f, int stack, int top)
{
    const char *p = file[f], *e; int g, r, lev = 0; char ln[24]; size_t l;
    if (eopen++ == bad_open) return -1;
    for (; *p; p = e + 1)
    {
        e = strchr(p, '\n');
        l = (size_t) (e - p); memcpy(ln, p, l); ln[l] = '\0';
        if (strstr(ln, "include ${f}")) { memcpy(strstr(ln, "${"), "A", 2); }
        strcat(flat, ln); strcat(flat, "\n");
        if (ln[0] == '{') ++lev;
        if (ln[0] == '}' && lev-- == 0 && f) stray = 1;
        if (strstr(ln, "include ") == NULL) continue;
        g = ln[strlen(ln) - 1] == 'M' ? 0 : ln[strlen(ln) - 1] == 'A' ? 1 : ln[strlen(ln) - 1] == 'B' ? 2 : -1;
        r = -1;
        if (g >= 0 && !(stack & (1 << g))) r = expand(g, stack | (1 << g), 0);
        if (r && ln[0] != '-') return -1;
        if (r && g >= 0) partial = 1;
    }
    if (lev && f) stray = 1;
    return eclose++ == bad_close ? -1 : 0;
}

int vp_main (void)
{
    static const char *ln[] = { "x 1\n", "include A\n", "include B\n", "-include B\n", "-include A\n", "s\n{\ninclude B\n}\n", "s\n{\n-include A\n}\n", "include C\n", "-include C\n", "f A\ninclude ${f}\n", "include M\n", "}\n", "s\n{\n" };
    static const u_config_driver_t tmpl = { d_open, d_close, d_gets, d_resolv };
    u_config_driver_t drv = tmpl; u_config_t *c = NULL; int i, k, rc, r, seen = 0, opt = 0;
    vp_use_allocator();
    for (i = 0; i < 3; ++i)
    {
        sprintf(file[i], "k%d %d\n", i, i);
        if (i && !(seen & (1 << i))) continue;
        for (k = 0; k < (i == 2 ? 1 : i == 1 ? AL : 2); ++k)
        {
            int w = vp_pick(0, LNS - 1);
            strcat(file[i], ln[w]);
            seen |= strchr(ln[w], 'A') ? 6 : strchr(ln[w], 'B') ? 4 : 0;
            if (strchr(ln[w], 'M')) partial = 1;
            if (strchr(ln[w], '-')) opt = 1;
        }
        strcat(file[i], i == 1 ? "z 1\n" : "z 2\n");
    }
    bad_open = vp_pick(-1, 3); bad_close = bad_open >= 0 ? -1 : vp_pick(-1, 2);
    over = bad_open < 0 && bad_close < 0 && vp_bool();
    k = bad_open;
    r = expand(0, 0, 1);
    bad_open = k;
    if (stray && opt) partial = 1;
    rc = u_config_load_from_drv("M", &drv, over, &c);
    VP_ASSERT(nopen == nclose, "every source is closed");
    if (rc == 0) 
    {
        if (!partial)
        {
            VP_ASSERT(r == 0, "what can't be included is reported");
            VP_ASSERT(!stray && ref(flat, strlen(flat), over) == 0, "malformed text is reported");
            same(c, 0);
        }
        u_config_free(c);
    }
    else if (!partial)
        VP_ASSERT(r != 0 || ref(flat, strlen(flat), over) != 0 || stray, "what can be loaded is loaded");
    VP_ASSERT(vp_live == 0, "every block is released");
    return rc != 0;
}
#endif

#if defined(H_DEEP)
/* sections within sections */
int vp_main (void)
{
    static const int d[] = { 1, 5, 20, 64, 65, 66, 100, 30000 };
    u_config_t *c = NULL, *x; int i, n = d[vp_pick(0, 7)], closed = vp_bool(), rc; char *t;
    vp_use_allocator();
    t = malloc((size_t) n * 6 + 8);
    for (i = 0; i < n; ++i) memcpy(t + i * 4, "s\n{\n", 4);
    for (i = 0; i < n; ++i) memcpy(t + n * 4 + i * 2, "}\n", 2);
    rc = u_config_load_from_buf(t, (size_t) n * (closed ? 6 : 4), &c);
    if (!closed) VP_ASSERT(rc != 0, "open sections are reported");
    else if (n <= 20) VP_ASSERT(rc == 0, "nested sections are accepted");
    if (rc == 0)
    {
        for (x = c, i = 0; (x = u_config_get_child(x, "s")) != NULL; ++i) ;
        VP_ASSERT(i == n, "with all their levels");
        u_config_free(c);
    }
    VP_ASSERT(vp_live == 0, "every block is released");
    free(t);
    return rc != 0;
}
#endif

#if defined(H_TYPES)
/* values as numbers and truth values */
static int word (const char *v, const char *w) { for (; *v && *w; ++v, ++w) if ((*v >= 'A' && *v <= 'Z' ? *v + 32 : *v) != *w) return 0; return *v == *w; }
int vp_main (void)
{
    static const char *yes[] = { "yes", "enable", "1", "on" }, *no[] = { "no", "disable", "0", "off" };
    u_config_t *c = NULL; char v[8]; int i, n = 77, rc, k = vp_pick(0, 2), y = 0, z = 0;
    vp_use_allocator();
    VP_ASSERT(u_config_create(&c) == 0, "create");
    if (k == 0)
    {
        VP_ASSERT(u_config_add_key(c, "b", "1") == 0, "add");
        VP_ASSERT(u_config_get_subkey_value_i(c, "a", 5, &n) == 0 && n == 5, "the default stands for a missing number");
        VP_ASSERT(u_config_get_subkey_value_b(c, "a", 6, &n) == 0 && n == 6, "the default stands for a missing truth value");
    }
    else if (k == 1)
    {
        size_t l;
        if (vp_bool()) vp_str(v, 3); else { static const char *w[] = { "enable", "disable", "ENABLE", "enables" }; strcpy(v, w[vp_pick(0, 3)]); }
        for (i = 0; v[i]; ++i) VP_ASSUME(v[i] != '$' && v[i] > ' ');
        l = strlen(v); (void) l;
        for (i = 0; i < 4; ++i) { y |= word(v, yes[i]); z |= word(v, no[i]); }
        VP_ASSERT(u_config_add_key(c, "s.a", v) == 0, "add");
        rc = u_config_get_subkey_value_b(c, "s.a", 6, &n);
        VP_ASSERT((rc == 0) == (y || z), "words for truth values, and no others, are understood");
        if (rc == 0) VP_ASSERT(n == y, "as what they mean");
    }
    else
    {
        int neg = vp_bool(), a = 0; size_t l = vp_stra(v, 3, "0123456789x");
        VP_ASSUME(l > 0);
        { char t[8]; sprintf(t, "%s%s", neg ? "-" : "", v); VP_ASSERT(u_config_add_key(c, "s.a", t) == 0, "add"); }
        for (i = 0; v[i] && v[i] != 'x'; ++i) a = a * 10 + v[i] - '0';
        rc = u_config_get_subkey_value_i(c, "s.a", 6, &n);
        if (v[0] == 'x') VP_ASSERT(rc != 0, "what is no number is reported");
        else if (v[i] == '\0') VP_ASSERT(rc == 0 && n == (neg ? -a : a), "numbers are converted");
    }
    u_config_free(c);
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
#endif

#if defined(H_WALK)
/* sorting and walking */
static int cmp (u_config_t **a, u_config_t **b) { return strcmp(u_config_get_key(*a), u_config_get_key(*b)); }
static u_config_t *seen[32]; static int nseen;
static void see (u_config_t *x) { VP_ASSERT(nseen < 32, "harness"); seen[nseen++] = x; }
static void order (u_config_t *c, int post, u_config_t **o, int *n)
{
    u_config_t *x; int i;
    for (i = 0; (x = u_config_get_child_n(c, NULL, i)) != NULL; ++i)
    {
        if (!post) o[(*n)++] = x;
        order(x, post, o, n);
        if (post) o[(*n)++] = x;
    }
}
int vp_main (void)
{
    u_config_t *c = NULL, *x, *in[N + 1], *o[32]; int i, k, n = vp_pick(0, N), at, used[N + 1], post; char key[2] = "?";
    vp_use_allocator();
    VP_ASSERT(u_config_create(&c) == 0, "create");
    for (i = 0; i < n; ++i)
    {
        key[0] = (char) vp_u8(); VP_ASSUME(key[0]);
        VP_ASSERT(u_config_add_child(c, key, &in[i]) == 0, "add"); used[i] = 0;
        if (vp_bool()) { VP_ASSERT(u_config_add_child(in[i], "k", &x) == 0, "add"); if (vp_bool()) VP_ASSERT(u_config_add_child(x, "l", &x) == 0, "add"); }
    }
    VP_ASSERT(u_config_sort_children(c, cmp) == 0, "sort");
    for (i = 0; i < n; ++i)
    {
        x = u_config_get_child_n(c, NULL, i);
        VP_ASSERT(x != NULL, "no child is lost by sorting");
        for (k = 0; k < n && in[k] != x; ++k) ;
        VP_ASSERT(k < n && !used[k], "every child is kept once"); used[k] = 1;
        if (i) { u_config_t *y = u_config_get_child_n(c, NULL, i - 1); VP_ASSERT(cmp(&y, &x) <= 0, "children are in order"); }
    }
    VP_ASSERT(u_config_get_child_n(c, NULL, n) == NULL, "nothing is added by sorting");
    post = vp_bool();
    at = 0; order(c, post, o, &at);
    u_config_walk(c, post ? U_CONFIG_WALK_POSTORDER : U_CONFIG_WALK_PREORDER, see);
    VP_ASSERT(nseen == at, "every item is visited once");
    for (i = 0; i < at; ++i) VP_ASSERT(seen[i] == o[i], "in the order asked for");
    u_config_free(c);
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
#endif

#if defined(H_BOTH)
/* an item with a value and subkeys */
int vp_main (void)
{
    u_config_t *a = NULL, *b = NULL; char out[64]; const char *v;
    vp_use_allocator();
    VP_ASSERT(u_config_create(&a) == 0 && u_config_add_key(a, "a", "1") == 0 && u_config_add_key(a, "a.b", "2") == 0, "add");
    VP_ASSERT(u_config_save_to_buf(a, out, sizeof out) == 0, "save");
    VP_ASSERT(u_config_load_from_buf(out, strlen(out), &b) == 0, "a saved item with a value and subkeys can be loaded");
    v = u_config_get_subkey_value(b, "a");
    VP_ASSERT(v && strcmp(v, "1") == 0, "its value survives");
    v = u_config_get_subkey_value(b, "a.b");
    VP_ASSERT(v && strcmp(v, "2") == 0, "its subkeys survive");
    u_config_free(a); u_config_free(b);
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
#endif

#if defined(H_FILE)
#include <fcntl.h>
#include "vp_os.h"
int vp_open (const char *name, int fl, ...);
int vp_close (int fd);
FILE *vp_fopen (const char *name, const char *mode);
int vp_fclose (FILE *fp);
/* configurations read from files and descriptors, and printed to streams */
int vp_main (void)
{
    static const char *t[] = { "", "a 1\nb 2", "s\n{\nc d e\n}\nx y\n", "q\n", "include g\nz 1\n", "-include h\nz 1\n" };
    static const char *flat[] = { "", "a 1\nb 2", "s\n{\nc d e\n}\nx y\n", "q\n", "include g\na 1\nz 1\n", "-include h\nz 1\n" };
    u_config_t *c = NULL; FILE *fp; int rc, fd, k = vp_pick(0, 5), how = vp_pick(0, 2);
    vp_use_allocator();
    os_reset();
    os_put("g", "a 1\n", 4);
    os_put("f", t[k], strlen(t[k]));
    ref(flat[k], strlen(flat[k]), 0);
    if (how == 0)
    {
        os_fault(vp_pick(-1, NFAULT));
        rc = u_config_load_from_file("f", &c);
    }
    else if (how == 1)
    {
        fd = vp_open("f", O_RDONLY);
        VP_ASSERT(u_config_create(&c) == 0, "create");
        os_fault(vp_pick(-1, NFAULT));
        rc = u_config_load(c, fd, 0);
        VP_ASSERT(os_open_files() == 1, "only the caller's descriptor is left open");
        os_fault(-1);
        VP_ASSERT(vp_close(fd) == 0, "and it is still open");
        if (rc) u_config_free(c);
    }
    else
    {
        /* print, and read that back */
        VP_ASSERT(u_config_load_from_file("f", &c) == 0, "load");
        if (k == 1) VP_ASSERT(u_config_add_key(c, "b#", "#\\#") == 0, "add");
        fp = vp_fopen("o", "w");
        u_config_print_to_fp(c, fp, vp_pick(0, 1));
        VP_ASSERT(vp_fclose(fp) == 0, "close");
        u_config_free(c);
        os_fault(vp_pick(-1, NFAULT));
        rc = u_config_load_from_file("o", &c);
        if (rc == 0)
        {
            nm = 1;
            ref(k == 4 ? "a 1\nz 1\n" : k == 5 ? "z 1\n" : k == 1 ? "a 1\nb 2\nb\\# \\#\\\\#\n" : flat[k], strlen(k == 4 ? "a 1\nz 1\n" : k == 5 ? "z 1\n" : k == 1 ? "a 1\nb 2\nb\\# \\#\\\\#\n" : flat[k]), 0);
        }
    }
    if (rc == 0) { if (k != 5) same(c, 0); u_config_free(c); }
    else VP_ASSERT(os_faulted(), "a load fails only when the system does");
    VP_ASSERT(os_open_files() == 0, "no file is left open");
    VP_ASSERT(vp_live == 0, "every block is released");
    return rc != 0;
}
#endif
