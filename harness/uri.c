#include "vp.h"
#include <u/libu.h>

/* the grammar of RFC 3986, read off the text from left to right */
typedef struct { const char *p; size_t n; } part_t;
static part_t scheme, authority, userinfo, user, pwd, host, port, path, query, fragment;
static int literal, ip;

static int digit (char c) { return c >= '0' && c <= '9'; }
static int alpha (char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int hex (char c) { return digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static int in (char c, const char *s) { for (; *s; ++s) if (*s == c) return 1; return 0; }

/* every character is alphanumeric, one of 'extra', or percent-encoded */
static int made (part_t t, const char *extra, int pct)
{
    size_t i;
    for (i = 0; i < t.n; ++i)
    {
        char c = t.p[i];
        if (alpha(c) || digit(c) || in(c, extra)) continue;
        if (pct && c == '%' && i + 2 < t.n && hex(t.p[i + 1]) && hex(t.p[i + 2])) { i += 2; continue; }
        return 0;
    }
    return 1;
}
#define NAME "-._~!$&'()*+,;="

static int ipv4 (part_t t)
{
    size_t i = 0; int k, v, n;
    for (k = 0; k < 4; ++k)
    {
        if (k) { if (i >= t.n || t.p[i] != '.') return 0; ++i; }
        for (v = n = 0; i < t.n && digit(t.p[i]); ++i) { if (n && v == 0) return 0; v = v * 10 + t.p[i] - '0'; if (++n > 3) return 0; }
        if (n == 0 || v > 255) return 0;
    }
    return i == t.n;
}

static int ipv6 (part_t t)
{
    size_t i = 0; int g = 0, dbl = 0, n;
    if (t.n < 2) return 0;
    if (t.p[0] == ':') { if (t.p[1] != ':') return 0; dbl = 1; i = 2; }
    while (i < t.n)
    {
        for (n = 0; i < t.n && hex(t.p[i]); ++i) ++n;
        if (n == 0 || n > 4) return 0;
        ++g;
        if (i == t.n) break;
        if (t.p[i++] != ':') return 0;
        if (i < t.n && t.p[i] == ':') { if (dbl) return 0; dbl = 1; if (++i == t.n) break; }
        else if (i == t.n) return 0;
    }
    return dbl ? g < 8 : g == 8;
}

static part_t cut (const char **s, const char *stop)
{
    part_t t;
    t.p = *s;
    while (**s && !in(**s, stop)) ++*s;
    t.n = (size_t) (*s - t.p);
    return t;
}

/* 1: a URI, 0: not one, -1: no opinion (what is inside the brackets of an address) */
static int ref (const char *s)
{
    int rc = 1;
    static const part_t none = { "", 0 };
    scheme = authority = userinfo = user = pwd = host = port = path = query = fragment = none;
    literal = ip = 0;
    scheme = cut(&s, ":");
    if (*s++ != ':' || scheme.n == 0 || !alpha(scheme.p[0]) || !made(scheme, "+-.", 0)) return 0;
    if (s[0] == '/' && s[1] == '/')
    {
        const char *a, *end;
        size_t i;
        s += 2;
        authority = cut(&s, "/?#");
        a = authority.p; end = s;
        for (i = 0; i < authority.n; ++i)
            if (a[i] == '@')
            {
                size_t k;
                userinfo.p = a; userinfo.n = i;
                if (!made(userinfo, NAME ":", 1)) return 0;
                for (k = 0; k < i && a[k] != ':'; ++k) ;
                user.p = a; user.n = k;
                if (k < i) { pwd.p = a + k + 1; pwd.n = i - k - 1; }
                a += i + 1;
                break;
            }
        if (*a == '[')
        {
            host.p = ++a;
            while (a < end && *a != ']') ++a;
            if (a == end) return 0;
            host.n = (size_t) (a - host.p);
            if (!made(host, NAME ":@", 1)) return 0;
            if (!ipv6(host)) rc = -1;
            literal = ip = 1;
            ++a;
        }
        else
        {
            host.p = a;
            while (a < end && *a != ':') ++a;
            host.n = (size_t) (a - host.p);
            if (!made(host, NAME, 1)) return 0;
            ip = ipv4(host);
        }
        if (a < end)
        {
            if (*a++ != ':') return 0;
            port.p = a; port.n = (size_t) (end - a);
            if (!made(port, "_-.*", 0)) return 0;
        }
    }
    path = cut(&s, "?#");
    if (!made(path, NAME ":@/", 1)) return 0;
    if (*s == '?') { ++s; query = cut(&s, "#"); if (!made(query, NAME ":@/?", 1)) return 0; }
    if (*s == '#') { ++s; fragment = cut(&s, ""); if (!made(fragment, NAME ":@/?", 1)) return 0; }
    return rc;
}

static int is (const char *s, part_t t) { size_t i; for (i = 0; i < t.n; ++i) if (s[i] != t.p[i]) return 0; return s[t.n] == '\0'; }

static void same (u_uri_t *u, int split)
{
    VP_ASSERT(is(u_uri_get_scheme(u), scheme), "scheme");
    VP_ASSERT(is(u_uri_get_userinfo(u), userinfo), "userinfo");
    if (split) { VP_ASSERT(is(u_uri_get_user(u), user), "user"); VP_ASSERT(is(u_uri_get_pwd(u), pwd), "password"); }
    VP_ASSERT(is(u_uri_get_host(u), host), "host");
    VP_ASSERT(is(u_uri_get_port(u), port), "port");
    VP_ASSERT(is(u_uri_get_authority(u), authority), "authority");
    VP_ASSERT(is(u_uri_get_path(u), path), "path");
    VP_ASSERT(is(u_uri_get_query(u), query), "query");
    VP_ASSERT(is(u_uri_get_fragment(u), fragment), "fragment");
    VP_ASSERT(!(u_uri_get_flags(u) & U_URI_FLAGS_HOST_IS_IPADDRESS) == !ip, "address or name");
    VP_ASSERT(!(u_uri_get_flags(u) & U_URI_FLAGS_HOST_IS_IPLITERAL) == !literal, "literal address or not");
}

#if defined(H_ANY) || defined(H_LONG) || defined(H_BACK)
static size_t text (char *t)
{
#if defined(H_LONG)
    static const char *before[] = { "", "a:", "a://", "a://h:", "a://", "a:?", "a:#", "a://[", "a://:", "a://u:", "a:/", "a:" };
    static const char *after[] = { "://h", "", "/", "/", "@h", "#f", "", "]", "@", "@h", "?q", "#f" };
    int k = vp_pick(0, 11), n = vp_pick(U_TOKEN_SZ - 3, U_TOKEN_SZ + 3);
    strcpy(t, before[k]);
    memset(t + strlen(t), k == 7 ? ':' : 'x', (size_t) n);
    strcpy(t + strlen(before[k]) + n, after[k]);
    return (size_t) n;
#else
    static const char *before[] = { "", "a:", "a://", "a://h", "a://[", "a:p", "a://1.2.3.4", "a:/" , "s://u:p@h:8/p?q#" };
    static const char *after[] = { "", "", "", "/p?q@#f", "]", "?q", "/", "/c", "" };
#if defined(CTX)
    int k = vp_pick(1, 8);
#else
    int k = 0;
#endif
    strcpy(t, before[k]);
    vp_str(t + strlen(t), N);
    strcat(t, after[k]);
    return 0;
#endif
}
#endif

#if defined(H_ANY) || defined(H_LONG)
int vp_main (void)
{
    static char t[400];
    u_uri_t *u = NULL;
    int rc, want, nosplit;
    size_t n;
    vp_use_allocator();
    nosplit = vp_bool();
    n = text(t);
#if defined(FAILS)
    vp_fail_at = vp_pick(-1, FAILS);
#endif
    rc = u_uri_crumble(t, nosplit ? U_URI_OPT_DONT_PARSE_USERINFO : U_URI_OPT_NONE, &u);
    want = ref(t);
    if (vp_fail_at >= 0 && vp_nalloc > vp_fail_at) { if (rc == 0) want = -1; else want = 0; }
    if (n > 0)
    {
        part_t c[] = { scheme, userinfo, host, port, path, query, fragment };
        int i;
        for (n = 0, i = 0; i < 7; ++i) if (c[i].n > n) n = c[i].n;
    }
    if (n > 0 && n >= U_TOKEN_SZ) want = 0;
    else if (n > 0 && n >= U_TOKEN_SZ - 1) want = -1;
    if (want == 1) VP_ASSERT(rc == 0, "a URI is accepted");
    if (want == 0) VP_ASSERT(rc != 0, "what is not a URI is refused");
    if (rc == 0)
    {
        if (authority.n < U_TOKEN_SZ - 1 && vp_fail_at < 0) same(u, !nosplit);
        if (nosplit) VP_ASSERT(*u_uri_get_user(u) == '\0' && *u_uri_get_pwd(u) == '\0', "the userinfo is not split if not wanted");
        u_uri_free(u);
    }
    VP_ASSERT(vp_live == 0, "nothing is left behind");
    vp_fail_at = -1;
    want = u_uri_is_absolute(t);
    if (rc != 0) { if (n == 0 && ref(t) == 0) VP_ASSERT(want == 0, "not a URI"); }
    else if (!in('#', t)) VP_ASSERT(want == 1, "a URI without fragment is absolute");
    else if (fragment.n) VP_ASSERT(want == 0, "a URI with a fragment is not absolute");
    VP_ASSERT(vp_live == 0, "nothing is left behind");
    return 0;
}
#elif defined(H_BACK)
/* what was split, composed and split again */
int vp_main (void)
{
    static char t[64], s[U_URI_STRMAX];
    u_uri_t *u = NULL, *v = NULL;
    int rc;
    vp_use_allocator();
    text(t);
    rc = u_uri_crumble(t, U_URI_OPT_NONE, &u);
    if (rc == 0)
    {
        ref(t);
        VP_ASSERT(u_uri_knead(u, s) == 0, "a URI that was split is composed again");
        VP_ASSERT(u_uri_crumble(s, U_URI_OPT_NONE, &v) == 0, "and is a URI");
        same(v, 1);
        u_uri_free(u); u_uri_free(v);
    }
    VP_ASSERT(vp_live == 0, "nothing is left behind");
    return 0;
}
#else
/* composition from components */
static int which;
static part_t some (char *b, int i, const char *extra)
{
    part_t t;
    t.p = b;
    if (which != i) { strcpy(b, i == 5 ? "/p@" : "v"); t.n = strlen(b); return t; }
    t.n = vp_str(b, N);
    VP_ASSUME(made(t, extra, 1));
    return t;
}
int vp_main (void)
{
    static char b[8][16], s[U_URI_STRMAX], a[64];
    u_uri_t *u = NULL, *v = NULL;
    int form, i;
    static const part_t none = { "", 0 };
    static const char *v6[] = { "::1", "::", "fe80::1" };
    vp_use_allocator();
    scheme = authority = userinfo = user = pwd = host = port = path = query = fragment = none;
    VP_ASSERT(u_uri_new(U_URI_OPT_NONE, &u) == 0, "create");
    strcpy(b[0], vp_bool() ? "x" : "a1+"); scheme.p = b[0]; scheme.n = strlen(b[0]);
    VP_ASSERT(u_uri_set_scheme(u, b[0]) == 0, "set scheme");
    which = vp_pick(0, 6);
    form = which == 1 ? vp_pick(1, 5) : which == 2 ? 1 + 2 * vp_pick(0, 1) : which == 3 ? vp_pick(2, 4) : which == 4 ? 4 : vp_pick(0, 5);   /* no authority, host, userinfo, user, user and password, authority as a whole */
#define SET(f) VP_ASSERT(u_uri_set_##f(u, f.p) == 0, "set " #f)
    if (form > 0)
    {
        if (form == 1 && which != 1 && vp_bool()) { strcpy(b[1], v6[vp_pick(0, 2)]); host.p = b[1]; host.n = strlen(b[1]); literal = ip = 1; }
        else
        {
            host = some(b[1], 1, NAME);
            VP_ASSUME(host.n > 0);
            ip = ipv4(host);
        }
        if (form < 5) SET(host);
        if (form == 1 || form == 3) { port.p = b[2]; port = some(b[2], 2, "_-.*"); VP_ASSUME(!in('%', b[2])); SET(port); }
        if (form == 2) { userinfo = some(b[3], 3, NAME ":"); SET(userinfo); }
        if (form == 3 || form == 4) { user = some(b[3], 3, NAME); SET(user); }
        if (form == 4) { pwd = some(b[4], 4, NAME ":"); VP_ASSUME(pwd.n == 0 || user.n > 0); SET(pwd); }
        /* what is expected of the pieces */
        i = 0;
        if (form == 2)
            for (i = 0; (size_t) i <= userinfo.n; ++i)
                if ((size_t) i == userinfo.n || b[3][i] == ':') { user.p = b[3]; user.n = (size_t) i; if ((size_t) i < userinfo.n) { pwd.p = b[3] + i + 1; pwd.n = userinfo.n - (size_t) i - 1; } break; }
        a[0] = '\0';
        if (form == 2) strcpy(a, b[3]);
        if (form == 3 || form == 4) { strcpy(a, b[3]); if (pwd.n) { strcat(a, ":"); strcat(a, b[4]); } }
        if (*a) { userinfo.p = strcpy(b[7], a); userinfo.n = strlen(a); strcat(a, "@"); }
        if (literal) strcat(a, "[");
        strcat(a, b[1]);
        if (literal) strcat(a, "]");
        if (port.n) { strcat(a, ":"); strcat(a, b[2]); }
        authority.p = a; authority.n = strlen(a);
        if (form == 5) SET(authority);
    }
    if (which == 5 || vp_bool())
    {
        path = some(b[5], 5, NAME ":@/");
        if (form > 0) VP_ASSUME(path.n == 0 || path.p[0] == '/');
        SET(path);
    }
    else if (form > 0 && vp_bool())
    {   /* a relative path that follows an authority is made absolute */
        VP_ASSERT(u_uri_set_path(u, "r/s") == 0, "set path"); path.p = "/r/s"; path.n = 4;
    }
    else { path.p = "/"; path.n = 1; }
    if (which == 6 || vp_bool()) { query = some(b[6], 6, NAME ":@/?"); SET(query); }
    if (vp_bool()) { fragment.p = "f/?"; fragment.n = 3; SET(fragment); }
    VP_ASSERT(u_uri_knead(u, s) == 0, "components make a URI");
    VP_ASSERT(u_uri_crumble(s, U_URI_OPT_NONE, &v) == 0, "that splits");
    same(v, 1);
    u_uri_free(u); u_uri_free(v);
    VP_ASSERT(vp_live == 0, "nothing is left behind");
    return 0;
}
#endif
