/*
 * Dual-mode harness support.
 *
 *  - under symx (VP_SYMEX): every vp_xxx() input is a fresh SMT symbol,
 *    VP_ASSUME/VP_ASSERT are decided by the solver.
 *  - natively (VP_REPLAY): the inputs are read back, in order, from the file
 *    named by $VP_INPUTS (a model the solver produced) and the assertions are
 *    real run-time checks, so every counterexample - and a sample of the
 *    explored paths - is replayed on the natively compiled sources with
 *    sanitizers on.
 */
#ifndef VP_H
#define VP_H

#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <sys/types.h>

#ifdef VP_REPLAY
  #include <stdio.h>
  long long vp_next (void);
  void vp_fail (const char *what, const char *file, int line);
  void vp_assume_fail (const char *file, int line);
  #define VP_ASSUME(c)      do { if (!(c)) vp_assume_fail(__FILE__, __LINE__); } while (0)
  #define VP_ASSERT(c, m)   do { ++vp_nassert; if (!(c)) vp_fail(m, __FILE__, __LINE__); } while (0)
  static inline unsigned char vp_u8 (void) { return (unsigned char) vp_next(); }
  static inline int vp_bool (void) { return vp_next() & 1; }
  static inline int vp_pick (int lo, int hi) { return (int) vp_next(); }
  extern unsigned *vp_nassertp;
  #define vp_nassert (*vp_nassertp)
  static inline int vp_int (void) { return (int) vp_next(); }
  static inline unsigned int vp_uint (void) { return (unsigned int) vp_next(); }
  static inline long vp_long (void) { return (long) vp_next(); }
  static inline size_t vp_size (void) { return (size_t) vp_next(); }
  #define VP_REACHED()      vp_mark()
  void vp_mark (void);
#else
  unsigned char __vp_sym8 (void);
  int __vp_sym32 (void);
  long __vp_sym64 (void);
  long __vp_pick (long lo, long hi);
  void __vp_assume (int c);
  void __vp_assert (int c, const char *msg);
  void __vp_reached (void);
  void __vp_poison (void *p, size_t n);
  #define VP_ASSUME(c)      __vp_assume((c) ? 1 : 0)
  #define VP_ASSERT(c, m)   __vp_assert((c) ? 1 : 0, m)
  static inline unsigned char vp_u8 (void) { return __vp_sym8(); }
  static inline int vp_bool (void) { return __vp_sym8() & 1; }
  static inline int vp_int (void) { return __vp_sym32(); }
  static inline unsigned int vp_uint (void) { return (unsigned int) __vp_sym32(); }
  static inline long vp_long (void) { return __vp_sym64(); }
  static inline size_t vp_size (void) { return (size_t) __vp_sym64(); }
  /* an arbitrary integer of [lo, hi]; the exploration splits on its value */
  static inline int vp_pick (int lo, int hi) { return (int) __vp_pick(lo, hi); }
  #define VP_REACHED()      __vp_reached()
#endif

/* integer in [lo, hi] */
static inline int vp_range (int lo, int hi)
{
    int v;
    if (lo == hi) return lo;
    v = vp_int();
    VP_ASSUME(v >= lo && v <= hi);
    return v;
}

/* one byte restricted to the (concrete) alphabet 'abc' */
static inline char vp_of (const char *abc)
{
    unsigned char c = vp_u8();
    int i, ok = 0;
    for (i = 0; abc[i] != '\0'; ++i)
        ok |= (c == (unsigned char) abc[i]);
    VP_ASSUME(ok);
    return (char) c;
}

/* fill buf with n arbitrary bytes */
static inline void vp_bytes (void *buf, size_t n)
{
    size_t i;
    for (i = 0; i < n; ++i)
        ((unsigned char *) buf)[i] = vp_u8();
}

/* n arbitrary non-NUL bytes and a terminator; buf holds n + 1 bytes */
static inline size_t vp_strn (char *buf, size_t n)
{
    size_t i;
    for (i = 0; i < n; ++i)
    {
        buf[i] = (char) vp_u8();
        VP_ASSUME(buf[i] != '\0');
    }
    buf[n] = '\0';
    return n;
}

/* arbitrary NUL terminated string of at most max characters (any byte value);
 * the length is split on, the characters are symbolic */
static inline size_t vp_str (char *buf, size_t max)
{
    return vp_strn(buf, (size_t) vp_pick(0, (int) max));
}

/* string of at most max characters over the given alphabet */
static inline size_t vp_stra (char *buf, size_t max, const char *abc)
{
    size_t i, n = (size_t) vp_pick(0, (int) max);
    for (i = 0; i < n; ++i)
        buf[i] = vp_of(abc);
    buf[n] = '\0';
    return n;
}

/*
 * Accounting allocator (installed through the public u_memory_set_* hooks).
 *  vp_live      number of blocks handed out and not yet returned
 *  vp_fail_at   the allocation with this ordinal (0-based) returns NULL (-1: none)
 *  vp_max_alloc requests beyond this many bytes fail (models a finite heap)
 */
extern int vp_live, vp_nalloc, vp_fail_at;
extern size_t vp_max_alloc;
void *vp_malloc (size_t sz);
void *vp_calloc (size_t n, size_t sz);
void *vp_realloc (void *p, size_t sz);
void vp_free (void *p);
void vp_use_allocator (void);

/*
 * Processes: the child runs first, to vp_endchild(), then the parent goes on
 * from vp_child() as if the child had never touched its memory, but for the
 * inputs taken and the block 'shared' (of vp_shared()).
 */
void *vp_shared (size_t n);
int vp_child (void *shared, size_t n);       /* 0: the child; 1: the parent, once the child has ended */
void vp_endchild (void) __attribute__((noreturn));

int vp_main (void);

#endif
