#include "vp.h"
#include <errno.h>
#include <u/libu.h>

/* an allocator of the program's own */
static unsigned char pool[64];
static void *gave, *asked; static size_t sz1, sz2; static int nm, nc, nr, nf;
static void *m (size_t n) { ++nm; sz1 = n; return gave; }
static void *c (size_t k, size_t n) { ++nc; sz1 = k; sz2 = n; return gave; }
static void *r (void *p, size_t n) { ++nr; asked = p; sz1 = n; return gave; }
static void f (void *p) { ++nf; asked = p; }

int vp_main (void)
{
    size_t n, k, i;
    unsigned char *p;
    char s[8];
    int how;
#if defined(H_OWN)
    n = vp_size(); k = vp_size();
    how = vp_pick(0, 6);
    u_memory_set_malloc(m); u_memory_set_calloc(c); u_memory_set_realloc(r); u_memory_set_free(f);
    gave = vp_bool() ? pool : NULL;
    switch (how)
    {
        case 0: VP_ASSERT(u_malloc(n) == gave && nm == 1 && sz1 == n, "malloc"); break;
        case 1: VP_ASSERT(u_calloc(k, n) == gave && nc == 1 && sz1 == k && sz2 == n, "calloc"); break;
        case 2: p = u_zalloc(n); VP_ASSERT(p == gave, "zalloc"); VP_ASSERT(nc == 1 && sz1 * sz2 == n && (sz1 == 1 || sz2 == 1), "zeroed memory of the size asked for"); break;
        case 3: VP_ASSERT(u_realloc(vp_bool() ? pool + 8 : NULL, n) == gave && nr == 1 && sz1 == n && (asked == pool + 8 || asked == NULL), "realloc"); break;
        case 4: u_free(pool + 3); VP_ASSERT(nf == 1 && asked == pool + 3, "free"); break;
        case 5: u_free(NULL); VP_ASSERT(nf == 0, "nothing to free"); break;
        default:
            i = vp_str(s, 3);
            p = vp_bool() ? (unsigned char *) u_strdup(s) : u_memdup(s, i + 1);
            VP_ASSERT(p == gave && nm == 1 && sz1 == i + 1, "duplicates come from the program's allocator");
            if (p) VP_ASSERT(memcmp(p, s, i + 1) == 0, "a copy");
            break;
    }
    VP_ASSERT(nm + nc + nr + nf == (how == 5 ? 0 : 1), "each function calls its own, once");
#else
    /* the system's allocator, the default */
    how = vp_pick(0, 4);
    n = (size_t) vp_pick(1, 40);
    switch (how)
    {
        case 0: p = u_zalloc(n); VP_ASSERT(p != NULL, "zalloc"); for (i = 0; i < n; ++i) VP_ASSERT(p[i] == 0, "zero"); memset(p, 1, n); u_free(p); break;
        case 1: p = u_calloc(n, 3); VP_ASSERT(p != NULL, "calloc"); for (i = 0; i < 3 * n; ++i) VP_ASSERT(p[i] == 0, "zero"); memset(p, 1, 3 * n); u_free(p); break;
        case 2: p = u_malloc(n); VP_ASSERT(p != NULL, "malloc"); vp_bytes(p, n); memcpy(pool, p, n);
                p = u_realloc(p, n + 5); VP_ASSERT(p != NULL && memcmp(p, pool, n) == 0, "content kept"); memset(p, 1, n + 5); u_free(p); break;
        case 3: k = vp_bool() ? (size_t) -1 / 16 + 1 : vp_bool() ? (size_t) -1 : (size_t) 1 << 60; VP_ASSERT(u_calloc(k, 16) == NULL, "an impossible size is refused"); break;
        default: p = u_realloc(NULL, n); VP_ASSERT(p != NULL, "realloc of nothing"); memset(p, 1, n); u_free(p); break;
    }
#endif
    return 0;
}
