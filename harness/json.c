#include "vp.h"
#include <u/libu.h>

/*
 * Oracle: a recogniser of RFC 4627 texts (plus the two documented or announced
 * leniencies: text after the outermost container, a comma before a closing
 * bracket), which also writes the text down without its insignificant space.
 */
static const char *t;
static char canon[4096];
static size_t cn;
static int deep;         /* nesting reached */
static int toolong;      /* some token does not fit */
static int loose;        /* form feeds and vertical tabs as white space: no opinion */

static void put (char c) { canon[cn++] = c; }
static void ws (void) { while (*t == ' ' || *t == '\t' || *t == '\n' || *t == '\r' || *t == '\v' || *t == '\f') { if (*t == '\v' || *t == '\f') loose = 1; ++t; } }
static int digit (char c) { return c >= '0' && c <= '9'; }
static int hex (char c) { return digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }

static int str (void)
{
    size_t n = 0, i;
    if (*t != '"') return 0;
    put(*t++);
    while (*t != '"')
    {
        if ((unsigned char) *t < 0x20) return 0;
        if (*t == '\\')
        {
            put(*t++); ++n;
            if (*t == 'u')
            {
                put(*t++); ++n;
                for (i = 0; i < 3; ++i) { if (!hex(*t)) return 0; put(*t++); ++n; }
                if (!hex(*t)) return 0;
            }
            else if (*t != '"' && *t != '\\' && *t != '/' && *t != 'b' && *t != 'f' && *t != 'n' && *t != 'r' && *t != 't') return 0;
        }
        put(*t++); ++n;
    }
    put(*t++);
    if (n > U_TOKEN_SZ - 2) toolong = 1;
    return 1;
}

static int num (void)
{
    const char *b = t;
    if (*t == '-') put(*t++);
    if (*t == '0') put(*t++);
    else { if (!digit(*t)) return 0; while (digit(*t)) put(*t++); }
    if (*t == '.') { put(*t++); if (!digit(*t)) return 0; while (digit(*t)) put(*t++); }
    if (*t == 'e' || *t == 'E')
    {
        put(*t++);
        if (*t == '+' || *t == '-') put(*t++);
        if (!digit(*t)) return 0;
        while (digit(*t)) put(*t++);
    }
    if ((size_t) (t - b) > U_TOKEN_SZ - 2) toolong = 1;
    return 1;
}

static int word (const char *w) { for (; *w; ++w) { if (*t != *w) return 0; put(*t++); } return 1; }

static int value (int depth)
{
    char close;
    int obj;
    if (depth > deep) deep = depth;
    switch (*t)
    {
        case '"': return str();
        case 't': return word("true");
        case 'f': return word("false");
        case 'n': return word("null");
        case '[': case '{': break;
        default: return num();
    }
    obj = *t == '{'; close = obj ? '}' : ']';
    put(*t++);
    ws();
    if (*t == close) { put(*t++); return 1; }
    for (;;)
    {
        if (obj)
        {
            if (!str()) return 0;
            ws();
            if (*t != ':') return 0;
            put(*t++);
            ws();
        }
        if (!value(depth + 1)) return 0;
        ws();
        if (*t == close) break;
        if (*t != ',') return 0;
        ++t;
        ws();
        if (*t == close) break;
        put(',');
    }
    put(*t++);
    return 1;
}

static int text (const char *s)
{
    t = s; cn = 0; deep = toolong = loose = 0;
    ws();
    if (*t != '[' && *t != '{') return 0;
    if (!value(0)) return 0;
    canon[cn] = '\0';
    return 1;
}

/* the encoder's text without insignificant space */
static void squeeze (char *s)
{
    char *d = s;
    int in = 0;
    for (; *s; ++s)
    {
        if (in && *s == '\\') { *d++ = *s++; *d++ = *s; continue; }
        if (*s == '"') in = !in;
        if (in || (*s != ' ' && *s != '\t' && *s != '\n' && *s != '\r')) *d++ = *s;
    }
    *d = '\0';
}

/* types and values, through the getters; c walks the canonical text */
static const char *c;
static void tree (u_json_t *j)
{
    u_json_it_t it;
    u_json_t *k;
    const char *v;
    unsigned n = 0, arr;
    long l;
    char b;
    switch (*c)
    {
        case '[': case '{':
            arr = *c == '[';
            VP_ASSERT(u_json_get_val(j) == NULL, "a container has no value");
            ++c;
            u_json_it(u_json_child_first(j), &it);
            while ((k = u_json_it_next(&it)) != NULL)
            {
                if (n++) ++c;
                if (!arr) { for (++c; *c != '"'; ++c) if (*c == '\\') ++c; c += 2; }
                tree(k);
                if (arr) VP_ASSERT(u_json_array_get_nth(j, n - 1) == k, "nth element");
            }
            ++c;
            if (arr) { VP_ASSERT(u_json_array_count(j) == n, "array count"); VP_ASSERT(u_json_array_get_nth(j, n) == NULL, "no element past the end"); }
            break;
        case 't': VP_ASSERT(u_json_get_bool(j, &b) == 0 && b == 1, "true"); c += 4; break;
        case 'f': VP_ASSERT(u_json_get_bool(j, &b) == 0 && b == 0, "false"); c += 5; break;
        case 'n': VP_ASSERT(strcmp(u_json_get_val(j), "null") == 0 && u_json_get_bool(j, &b) != 0, "null"); c += 4; break;
        case '"':
            VP_ASSERT(u_json_get_int(j, &l) != 0, "a string is not a number");
            v = u_json_get_val(j);
            for (++c; *c != '"'; )
            {
                if (*c == '\\') { VP_ASSERT(*v == *c, "string value"); ++v; ++c; }
                VP_ASSERT(*v == *c, "string value"); ++v; ++c;
            }
            VP_ASSERT(*v == '\0', "string value");
            ++c;
            break;
        default:
            v = u_json_get_val(j);
            for (; *v; ++v, ++c) VP_ASSERT(*v == *c, "number value");
            VP_ASSERT(*c == ',' || *c == ']' || *c == '}', "number value");
            VP_ASSERT(u_json_get_bool(j, &b) != 0, "a number is not a truth value");
            break;
    }
}

#if defined(H_DEC)
#define MAXT (N + 700)
int vp_main (void)
{
    static char s[MAXT];
    char status[U_LEXER_ERR_SZ], *out = NULL;
    u_json_t *j = (u_json_t *) 1;
    const char *pre = "", *post = "";
    size_t n, o = 0, i;
    int rc, rv, want, nest = 0;
    vp_use_allocator();
#if defined(H_ANY)
    n = vp_str(s, N);
#elif defined(H_STRUCT)
    n = vp_stra(s, N, "[]{}:,\"1 ");
#elif defined(H_NUM)
    /* numbers */
    strcpy(s, (rc = vp_pick(0, 1)) ? "{\"k\":" : "["); n = strlen(s);
    n += vp_stra(s + n, N, "+-.eE018");
    strcpy(s + n, rc ? "}" : "]");
#elif defined(H_STRING)
    /* strings and escapes */
    strcpy(s, (rc = vp_pick(0, 1)) ? "{\"" : "[\""); n = strlen(s);
    n += vp_stra(s + n, N, "\\u\"na1x");
    strcpy(s + n, rc ? "\":1}" : "\"]");
#elif defined(H_NEST)
    /* around the nesting limit */
    nest = vp_pick(U_JSON_MAX_DEPTH - 3, U_JSON_MAX_DEPTH + 1);
    for (i = 0; i < (size_t) nest; ++i)
        if (i & 1) { memcpy(s + o, "{\"k\":", 5); o += 5; } else s[o++] = '[';
    n = o + vp_stra(s + o, N, "[]1");
    for (i = (size_t) nest; i-- > 0; ) s[n++] = (i & 1) ? '}' : ']';
    s[n] = '\0';
#elif defined(H_TOK)
    /* around the limit on tokens: a string value, a key, a number */
    o = (size_t) vp_pick(U_TOKEN_SZ - 4, U_TOKEN_SZ + 2);
    switch (vp_pick(0, 2))
    {
        case 0: strcpy(s, "[\""); post = "\"]"; break;
        case 1: strcpy(s, "{\""); post = "\":[]}"; break;
        default: strcpy(s, "[-1"); post = "]"; break;
    }
    n = strlen(s);
    memset(s + n, '7', o); n += o;
    s[n++] = vp_of("7\"\\ "); s[n++] = vp_of("7]n");
    strcpy(s + n, post);
#else
    switch (vp_pick(0, 6))
    {
        case 0: pre = "["; post = "]"; break;
        case 1: pre = "{\"k\":"; post = "}"; break;
        case 2: pre = "{"; post = ":0}"; break;
        case 3: pre = "[["; post = "],1]"; break;
        case 4: pre = "[\""; post = "\"]"; break;
        case 5: pre = "[\"\\u00"; post = "\"]"; break;
        default: pre = "[t"; post = "]x"; break;
    }
    strcpy(s, pre); n = strlen(pre);
    n += vp_str(s + n, N);
    strcpy(s + n, post);
#endif
#ifdef FAILS
    vp_fail_at = vp_pick(0, FAILS);
#endif
    want = text(s);
    memset(status, 'S', sizeof status);
    rc = u_json_decode(s, &j);
#ifdef FAILS
    if (vp_nalloc <= vp_fail_at) vp_fail_at = -1; /* it did not fail any after all */
    else { VP_ASSERT(rc != 0, "a failed allocation is noticed"); VP_ASSERT(vp_live == 0, "a failed decoding leaves nothing behind"); }
#endif
    if (vp_fail_at < 0)
    {
        if (want && deep < U_JSON_MAX_DEPTH && !toolong && !loose) VP_ASSERT(rc == 0, "every JSON text is accepted");
        if (!want || toolong || deep >= U_JSON_MAX_DEPTH) VP_ASSERT(rc != 0, "nothing but JSON within the limits is accepted");
    }
    rv = rc;
#ifndef FAILS
    rv = u_json_validate(s, status);
    if (!want || !toolong) VP_ASSERT(loose || (rv == 0) == want, "validation accepts the same texts");
    if (rv) VP_ASSERT(memchr(status, '\0', sizeof status) != NULL, "status is terminated");
#else
    vp_fail_at = vp_fail_at < 0 ? -1 : vp_nalloc + vp_fail_at;
    rv = u_json_validate(s, status);
    if (vp_fail_at >= 0 && vp_nalloc > vp_fail_at) VP_ASSERT(rv != 0, "a failed allocation is noticed");
#endif
    if (rc == 0)
    {
        vp_fail_at = -1;
        c = canon;
        tree(j);
        VP_ASSERT(u_json_encode(j, &out) == 0, "what was decoded can be encoded");
        squeeze(out);
        VP_ASSERT(strcmp(out, canon) == 0, "encoding keeps names, values and order");
        vp_free(out);
        u_json_free(j);
    }
    VP_ASSERT(vp_live == 0, "nothing is left behind");
    return 0;
}
#endif
