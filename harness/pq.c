#include "vp.h"
#include <u/libu.h>

static double K[CAP + 1];
static size_t id[CAP + 1], n;

static double key (void)
{
    union { long l; double d; } u;
#ifdef COARSE
    /* one double out of 256 that span the whole range, zeroes of both signs
     * included (none is a NaN): sign, and the top of the exponent */
    u.l = (long) ((unsigned long) vp_u8() << 56);
#else
    u.l = vp_long();
    VP_ASSUME(u.d == u.d); /* keys are numbers */
#endif
    return u.d;
}

/* the pair (k, v) is in the queue and no other one has a higher key */
static void top (double k, void *v, int del)
{
    size_t i, at = n;
    int ok = 1;
    for (i = 0; i < n; ++i)
    {
        if (id[i] == (size_t) v) at = i;
        ok &= (k >= K[i]);
    }
    VP_ASSERT(ok, "the top has the highest key");
    VP_ASSERT(at < n, "the top is one of the queued items");
    VP_ASSERT(K[at] == k, "the top comes with the key it was pushed with");
    if (del) { --n; id[at] = id[n]; K[at] = K[n]; }
}

int vp_main (void)
{
    u_pq_t *pq = NULL;
    size_t cap, next = 1;
    int i, rc;
    double k;
    void *v;
    vp_use_allocator();
#if defined(H_SEQ)
    vp_fail_at = vp_pick(-1, 2);
    cap = (size_t) vp_pick(0, CAP);
    rc = u_pq_create(cap, &pq);
    if (cap < 2 || rc != 0)
    {
        VP_ASSERT(rc != 0, "capacity below two is refused");
        VP_ASSERT(cap < 2 || vp_fail_at >= 0, "creation fails only for lack of memory");
        VP_ASSERT(vp_live == 0, "failed creation leaks nothing");
        return 1;
    }
    for (i = 0; i < NOPS; ++i)
    {
        VP_ASSERT(!!u_pq_empty(pq) == (n == 0), "empty exactly without items");
        VP_ASSERT(!!u_pq_full(pq) == (n == cap), "full exactly at capacity");
        switch (vp_pick(0, 2))
        {
            case 0:
                k = key();
                rc = u_pq_push(pq, k, (void *) next);
                VP_ASSERT((rc == 0) == (n < cap), "push succeeds exactly when there is room");
                if (rc == 0) { K[n] = k; id[n++] = next; }
                else VP_ASSERT(rc == -2, "full queue is told apart");
                ++next;
                break;
            case 1:
                if (n == 0) { VP_ASSERT(u_pq_delmax(pq, NULL) == NULL, "nothing to evict"); break; }
                v = u_pq_delmax(pq, &k);
                top(k, v, 1);
                break;
            default:
                if (n == 0) break;
                v = u_pq_peekmax(pq, &k);
                top(k, v, 0);
                break;
        }
    }
#endif
#if defined(H_SORT)
    cap = CAP;
    VP_ASSERT(u_pq_create(cap, &pq) == 0, "create");
    for (i = 0; i < CAP; ++i)
    {
        k = key();
        VP_ASSERT(u_pq_push(pq, k, (void *) next) == 0, "push succeeds");
        K[n] = k; id[n++] = next++;
    }
    VP_ASSERT(u_pq_full(pq), "full at capacity");
#endif
#if defined(H_EXTREME)
    {
        size_t want = vp_size();
        vp_max_alloc = 4096;
        VP_ASSUME(want > 4096);
        VP_ASSERT(u_pq_create(want, &pq) != 0, "a capacity the memory cannot hold is refused");
        VP_ASSERT(vp_live == 0, "failed creation leaks nothing");
        return 0;
    }
#endif
    while (n > 0)
    {
        v = u_pq_delmax(pq, &k);
        top(k, v, 1);
    }
    VP_ASSERT(u_pq_empty(pq), "empty after evicting everything");
    u_pq_free(pq);
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
