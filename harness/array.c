#include "vp.h"
#include <u/libu.h>

#ifndef NOPS
#define NOPS 3
#endif
#ifndef MAXIDX
#define MAXIDX 5
#endif

#if defined(T)
/* last-write-wins on any history of set/get with automatic resize; T, TT and
 * the accessors SET and GET come from the query */
static T pick (void)
{
    T v;
    vp_bytes(&v, sizeof v);
#ifdef ISBOOL
    memset(&v, vp_bool(), 1);
#endif
    return v;
}
static int same (T a, T b) { return memcmp(&a, &b, sizeof a) == 0; }
int vp_main (void)
{
    u_array_t *a = NULL; int rc;
    T model[MAXIDX + 1], v, old;
    int i, idx, wr[MAXIDX + 1] = { 0 };
    size_t n = (size_t) vp_pick(1, 3);
    int other;
    memset(model, 0, sizeof model);
    vp_use_allocator();
    VP_ASSERT(u_array_create(TT, n, &a) == 0, "create succeeds");
#ifdef FAILS
    vp_fail_at = vp_nalloc + vp_pick(0, FAILS);
#endif
    for (i = 0; i < NOPS; ++i)
    {
        idx = vp_pick(0, MAXIDX);
#ifdef FAILS
        if (vp_bool())
        {
            int many = vp_nalloc;
            rc = u_array_resize(a, (size_t) idx);
            VP_ASSERT(rc == 0 || (vp_fail_at >= many && vp_fail_at < vp_nalloc), "making room fails only for want of memory");
        }
#endif
        v = pick();
#ifdef FAILS
        old = v; n = vp_nalloc;
        rc = SET(a, (size_t) idx, v, vp_bool() ? &old : NULL);
        VP_ASSERT(rc == 0 || ((size_t) vp_fail_at >= n && vp_fail_at < vp_nalloc), "a set fails only for want of memory");
        if (rc == 0) { model[idx] = v; wr[idx] = 1; }
        continue;
#endif
        if (vp_bool())
        {
            VP_ASSERT(SET(a, (size_t) idx, v, &old) == 0, "set succeeds");
            VP_ASSERT(same(old, model[idx]), "old value handed back is the value last stored (zero when never set)");
        }
        else
            VP_ASSERT(SET(a, (size_t) idx, v, NULL) == 0, "set without old value succeeds");
        model[idx] = v;
        wr[idx] = 1;
    }
    for (i = 0; i <= MAXIDX; ++i)
    {
        if (GET(a, (size_t) i, &v) == 0)
            VP_ASSERT(same(v, model[i]), "get yields the value last stored (zero when never set)");
        else
            VP_ASSERT(!wr[i], "a stored value is never lost");
    }
    /* strict typing: any other accessor refuses and changes nothing */
    (void) rc;
    other = vp_pick(0, 2);
    if (other == 2)
    {
        void *o; int rc = 5;
        o = u_array_set_ptr(a, 0, &rc, &rc);
        VP_ASSERT(rc != 0 && o == NULL, "set of a pointer is refused");
        rc = 5; o = u_array_get_ptr(a, 0, &rc);
        VP_ASSERT(rc != 0 && o == NULL, "get of a pointer is refused");
        (void) u_array_set_ptr(a, 0, &rc, NULL); (void) u_array_get_ptr(a, 0, NULL);
        if (wr[0])
        {
            VP_ASSERT(GET(a, 0, &v) == 0, "get after refused access");
            VP_ASSERT(same(v, model[0]), "refused access leaves the array alone");
        }
    }
    else
    {
        long l = 77, lo = 99;
        char c = 7, co = 9;
        if (other && TT != U_ARRAY_TYPE_LONG)
        {
            VP_ASSERT(u_array_set_long(a, 0, l, &lo) != 0, "set through the wrong type is refused");
            VP_ASSERT(u_array_get_long(a, 0, &lo) != 0, "get through the wrong type is refused");
            VP_ASSERT(lo == 99, "refused access leaves the caller's variable alone");
        }
        if (!other && TT != U_ARRAY_TYPE_CHAR)
        {
            VP_ASSERT(u_array_set_char(a, 0, c, &co) != 0, "set through the wrong type is refused");
            VP_ASSERT(u_array_get_char(a, 0, &co) != 0, "get through the wrong type is refused");
            VP_ASSERT(co == 9, "refused access leaves the caller's variable alone");
        }
        if (wr[0])
        {
            VP_ASSERT(GET(a, 0, &v) == 0, "get after refused access");
            VP_ASSERT(same(v, model[0]), "refused access leaves the array alone");
        }
    }
    u_array_free(a);
    VP_ASSERT(vp_live == 0, "free releases every block");
    return 0;
}
#endif

#if defined(H_PTR)
int vp_main (void)
{
    static char obj[4];
    u_array_t *a = NULL;
    void *model[MAXIDX + 1] = { NULL }, *old, *nv;
    int i, idx, rc, wr[MAXIDX + 1] = { 0 };
    size_t n = (size_t) vp_pick(1, 3);
    vp_use_allocator();
    VP_ASSERT(u_array_create(U_ARRAY_TYPE_PTR, n, &a) == 0, "create succeeds");
    for (i = 0; i < NOPS; ++i)
    {
        idx = vp_pick(0, MAXIDX);
        nv = vp_bool() ? (void *) &obj[i] : NULL;
        rc = 5;
        old = u_array_set_ptr(a, (size_t) idx, nv, &rc);
        VP_ASSERT(rc == 0, "set succeeds");
        VP_ASSERT(old == model[idx], "old pointer handed back is the one last stored (NULL when never set)");
        model[idx] = nv;
        wr[idx] = 1;
    }
    for (i = 0; i <= MAXIDX; ++i)
    {
        rc = 5;
        nv = u_array_get_ptr(a, (size_t) i, &rc);
        if (rc == 0)
            VP_ASSERT(nv == model[i], "get yields the pointer last stored (NULL when never set)");
        else
        {
            VP_ASSERT(nv == NULL, "failed get yields NULL");
            VP_ASSERT(!wr[i], "a stored pointer is never lost");
        }
    }
    {
        long l = 7; char c = 7;
        VP_ASSERT(u_array_set_long(a, 0, l, &l) != 0 && u_array_get_long(a, 0, &l) != 0 && u_array_set_char(a, 0, c, NULL) != 0 && u_array_get_char(a, 0, &c) != 0 && l == 7 && c == 7, "access through the wrong type is refused");
        if (wr[0]) VP_ASSERT(u_array_get_ptr(a, 0, NULL) == model[0], "refused access leaves the array alone");
    }
    u_array_free(a);
    VP_ASSERT(vp_live == 0, "free releases every block");
    return 0;
}
#endif

#if defined(H_EXTREME)
/* any size_t index and any initial size on a finite heap: the access is either
 * refused, leaving the array as it was, or lands inside the array */
int vp_main (void)
{
    u_array_t *a = NULL;
    size_t n = vp_size(), i = vp_size(), j = vp_size();
    long v, x = vp_long(), y = vp_long();
    int s0, s1;
    vp_use_allocator();
    vp_max_alloc = HEAP;
    VP_ASSERT(u_array_create(99, n, &a) != 0, "an unknown element type is refused");
    if (u_array_create(U_ARRAY_TYPE_LONG, n, &a) != 0)
    {
        VP_ASSERT(vp_live == 0, "failed create leaks nothing");
        return 1;
    }
    s0 = u_array_set_long(a, i, x, NULL);
    s1 = u_array_set_long(a, j, y, NULL);
    if (s1 == 0)
        VP_ASSERT(u_array_get_long(a, j, &v) == 0 && v == y, "second value is stored");
    if (s0 == 0)
        VP_ASSERT(u_array_get_long(a, i, &v) == 0 && v == (s1 == 0 && i == j ? y : x), "first value survives the second set, even when that one fails");
    VP_ASSERT(!(i < n && s0 != 0) || n > HEAP / sizeof(long), "an index inside the initial size is always accepted");
    u_array_free(a);
    VP_ASSERT(vp_live == 0, "free releases every block");
    return s0 == 0 && s1 == 0 ? 0 : 1;
}
#endif
