#include "vp.h"
#include <stdio.h>
#include <u/libu.h>
#include "vp_os.h"

static int holds (const char *name, const unsigned char *d, size_t n)
{
    size_t i;
    if (os_size(name) != (long) n) return 0;
    for (i = 0; i < n; ++i) if (os_data(name)[i] != d[i]) return 0;
    return 1;
}

#if defined(H_COPY)
int vp_main (void)
{
    static const char *to[] = { "b", "x/b", "a", "old", "none/../b" };
    unsigned char d[N + 1], o[2] = { 'o', 'l' };
    size_t n = (size_t) vp_pick(0, N);
    int dst = vp_pick(0, 3), op = vp_pick(0, 2), rc, clash = dst == 3, same = dst == 2;
    vp_use_allocator();
    os_reset();
    vp_bytes(d, n);
    os_put("a", d, n);
    os_put("old", o, 2);
    if (op == 2) { dst = vp_pick(0, 1); rc = vp_bool(); if (rc) { os_fault(vp_pick(0, 2)); } rc = u_remove(dst ? "a" : "gone");
        if (rc == 0) VP_ASSERT(os_size("a") == -1 && dst, "a removed file is gone");
        else { VP_ASSERT(os_faulted() || !dst, "a file there is removed"); VP_ASSERT(holds("a", d, n), "a failed removal leaves the file"); }
        return rc != 0; }
    os_fault(vp_pick(-1, NFAULT));
    if (TWO) os_fault2(vp_pick(0, NFAULT));
    if (op == 0)
    {
        rc = u_copy("a", to[dst]);
        if (rc == 0) VP_ASSERT(holds(to[dst], d, n), "a copied file has the source's bytes");
        VP_ASSERT(holds("a", d, n), "the source of a copy stays as it is");
        if (rc && !same) VP_ASSERT(os_faulted(), "a copy fails only when the system does");
    }
    else
    {
        rc = u_move("a", to[dst]);
        if (rc == 0)
        {
            VP_ASSERT(holds(to[dst], d, n), "a moved file has the source's bytes");
            if (!same) VP_ASSERT(os_size("a") == -1, "and is gone from its old place");
        }
        else
        {
            VP_ASSERT(holds("a", d, n), "the source of a failed move is not lost");
            if (!same && !clash) VP_ASSERT(os_faulted(), "a move fails only when the system does");
        }
    }
    if (dst != 3) VP_ASSERT(holds("old", o, 2), "other files stay as they are");
    VP_ASSERT(os_open_files() == 0, "no file is left open");
    VP_ASSERT(vp_live == 0, "every block is released");
    return rc != 0;
}
#endif

#if defined(H_BIG)
/* files around the size of a copy's chunk */
int vp_main (void)
{
    static const int len[] = { 1, 4095, 4096, 4097, 8191, 8192, 8193 };
    static unsigned char d[OS_CAP]; size_t n = (size_t) len[vp_pick(0, 6)], i; int rc, op = vp_pick(0, 1); const char *to = vp_bool() ? "x/b" : "b";
    vp_use_allocator();
    os_reset();
    for (i = 0; i < n; ++i) d[i] = (unsigned char) (i * 7);
    for (i = 0; i < n; i += 4095) d[i] = vp_u8();
    d[n - 1] = vp_u8();
    os_put("a", d, n);
    os_fault(vp_pick(-1, NFAULT));
    rc = op ? u_move("a", to) : u_copy("a", to);
    if (rc == 0) VP_ASSERT(holds(to, d, n), "the destination has the source's bytes");
    else VP_ASSERT(os_faulted() && holds("a", d, n), "failures are the system's and lose nothing");
    VP_ASSERT(os_open_files() == 0, "no file is left open");
    return rc != 0;
}
#endif

#if defined(H_MEM)
/* data dumped, loaded, and process ids saved */
int vp_main (void)
{
    unsigned char d[N + 1]; char *p = NULL, t[24]; size_t n = (size_t) vp_pick(0, N), sz = 0, max, i; int rc, op = vp_pick(0, 2);
    vp_use_allocator();
    os_reset();
    vp_bytes(d, n);
    if (op == 0)
    {
        if (vp_bool()) os_put("f", "old content", 11);
        os_fault(vp_pick(-1, NFAULT));
        rc = u_data_dump((char *) d, n, "f");
        if (rc == 0) VP_ASSERT(holds("f", d, n), "dumped data is in the file");
        else VP_ASSERT(os_faulted(), "a dump fails only when the system does");
    }
    else if (op == 1)
    {
        os_put("f", d, n);
        max = (size_t) vp_pick(0, N);
        i = (size_t) vp_pick(0, 1);
        os_fault(vp_pick(-1, NFAULT));
        if (i) vp_fail_at = vp_nalloc;
        rc = u_load_file("f", max, &p, &sz);
        vp_fail_at = -1;
        if (rc == 0)
        {
            VP_ASSERT(max == 0 || n <= max, "files over the limit are refused");
            VP_ASSERT(sz == n, "the whole file is loaded");
            for (i = 0; i < n; ++i) VP_ASSERT((unsigned char) p[i] == d[i], "with its bytes");
            u_free(p);
        }
        else VP_ASSERT(os_faulted() || (max && n > max) || i, "a load fails only when the system does");
        VP_ASSERT(holds("f", d, n), "loading leaves the file alone");
    }
    else
    {
        os_fault(vp_pick(-1, NFAULT));
        rc = u_savepid("f");
        if (rc == 0)
        {
            int l = sprintf(t, "%ld\n", 4242L);
            VP_ASSERT(holds("f", (unsigned char *) t, (size_t) l), "the pid is in the file");
        }
        else VP_ASSERT(os_faulted(), "saving a pid fails only when the system does");
    }
    VP_ASSERT(os_open_files() == 0, "no file is left open");
    VP_ASSERT(vp_live == 0, "every block is released");
    return rc != 0;
}
int vp_getpid (void) { return 4242; }
#endif
