#include "vp.h"
#include <u/libu.h>

#define MAXL (NOPS + 1)
static void *M[MAXL + 1];
static size_t ML;

static void check (u_list_t *l)
{
    size_t i, n;
    void *it = NULL, *p;
    VP_ASSERT(u_list_count(l) == ML, "count is the number of elements");
    for (i = 0; i < ML; ++i)
        VP_ASSERT(u_list_get_n(l, i) == M[i], "n-th element in insertion position");
    VP_ASSERT(u_list_get_n(l, ML) == NULL && u_list_get_n(l, ML + 1) == NULL, "no element past the end");
    i = 0;
    u_list_foreach (l, p, it)
    {
        VP_ASSERT(i < ML && p == M[i], "traversal follows the order");
        ++i;
    }
    VP_ASSERT(i == ML, "traversal visits every element");
    u_list_iforeach (l, p, it, n) ;
    VP_ASSERT(n == ML, "counting traversal visits every element");
}

static void *val (void)
{
    /* elements are opaque: any non-NULL value, repetitions included */
    size_t v = vp_u8();
    VP_ASSUME(v != 0);
    return (void *) v;
}

static void m_ins (void *p, size_t n)
{
    memmove(M + n + 1, M + n, (ML - n) * sizeof *M);
    M[n] = p; ++ML;
}

static void m_del (size_t n)
{
    memmove(M + n, M + n + 1, (ML - n - 1) * sizeof *M);
    --ML;
}

int vp_main (void)
{
    u_list_t *l = NULL;
    int i, op, rc, oom;
    size_t n, k;
    void *p, *q;
    vp_use_allocator();
    vp_fail_at = vp_pick(-1, NOPS);
    if (u_list_create(&l) != 0)
    {
        VP_ASSERT(vp_fail_at == 0, "creation fails only for lack of memory");
        return 1;
    }
    for (i = 0; i < NOPS; ++i)
    {
        int na = vp_nalloc;
        op = vp_pick(0, 5);
        switch (op)
        {
            case 0:
                p = val();
                rc = u_list_add(l, p);
                oom = vp_fail_at >= na && vp_fail_at < vp_nalloc;
                VP_ASSERT((rc != 0) == oom, "add fails only for lack of memory");
                if (rc == 0) m_ins(p, ML);
                break;
            case 1:
                p = val();
                n = (size_t) vp_pick(0, (int) ML + 1);
                rc = u_list_insert(l, p, n);
                oom = vp_fail_at >= na && vp_fail_at < vp_nalloc;
                VP_ASSERT((rc == 0) == (n <= ML && !oom), "insert accepts exactly the positions up to the end");
                if (rc == 0) m_ins(p, n);
                break;
            case 2:
                p = val();
                for (k = 0; k < ML && M[k] != p; ++k) ;
                rc = u_list_del(l, p);
                VP_ASSERT((rc == 0) == (k < ML), "del succeeds exactly when the element is there");
                if (rc == 0) m_del(k); /* the first one equal to p */
                break;
            case 3:
                n = (size_t) vp_pick(0, (int) ML + 1);
                q = NULL;
                rc = u_list_del_n(l, n, &q);
                VP_ASSERT((rc == 0) == (n < ML), "del_n accepts exactly the existing positions");
                if (rc == 0) { VP_ASSERT(q == M[n], "del_n hands back the element"); m_del(n); }
                break;
            case 4:
                VP_ASSERT(u_list_clear(l) == 0, "clear succeeds");
                ML = 0;
                break;
            default:
                /* dropping the visited element does not disturb a traversal */
                k = 0;
                n = 0;
                {
                    void *it, *seen[MAXL + 1];
                    size_t tot = ML;
                    memcpy(seen, M, sizeof seen);
                    u_list_foreach (l, p, it)
                    {
                        VP_ASSERT(k < tot && p == seen[k], "traversal survives the removal of the current element");
                        if (k == 0 || k == 2)
                        {
                            u_list_del_n(l, n, NULL);
                            m_del(n);
                        }
                        else ++n;
                        ++k;
                    }
                    VP_ASSERT(k == tot, "traversal visits every element");
                }
                break;
        }
        check(l);
    }
    u_list_free(l);
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
