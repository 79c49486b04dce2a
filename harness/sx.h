/* Harness API. In the symbolic executor these are built-ins; in the native replay they are
 * implemented by native/sx_native.c, which feeds back recorded counterexample values. */
#ifndef SX_H
#define SX_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void sx_make_symbolic(void *p, size_t n, const char *name);
unsigned long sx_bits(const char *name, int bits);      /* arbitrary unsigned value of `bits` bits */
void sx_assume(int c);
void sx_assert(int c, const char *msg);
void sx_observe(const char *name, long v);              /* compared between engine and native run */
void sx_exit_mode(int m);                               /* 0: exit() is a violation, 1: exit() ends the run quietly */
void sx_merge(int on);
void sx_reach(const char *name);
long sx_concretize(long v);                             /* explore every feasible value separately */
long sx_param(const char *name, long dflt);
void sx_heap_residue(int r);
long sx_live_heap(void);
int  sx_in_engine(void);
int  sx_addressable(const void *p, size_t n);
long sx_block_size(const void *p);
void sxf_put(const char *name, const void *p, size_t len);   /* files: modelled in the engine, real in the replay */
long sxf_get(const char *name, void *p, size_t cap);
int  sxf_open_handles(void);
void sx_inconclusive(const char *msg);
int  sx_is_symbolic(long v);
#ifdef __cplusplus
}
#endif
#define SX_T(type, fn) static inline type fn(const char *n) { type v; sx_make_symbolic(&v, sizeof v, n); return v; }
SX_T(int, sx_int) SX_T(unsigned, sx_uint) SX_T(long, sx_long) SX_T(unsigned char, sx_uchar) SX_T(short, sx_short) SX_T(unsigned short, sx_ushort) SX_T(float, sx_float) SX_T(double, sx_double)
/* symbolic integer in [lo,hi] */
static inline long sx_range(const char *n, long lo, long hi) { int b = 1; while (((long)1 << b) <= hi - lo) b++; long v = lo + (long)sx_bits(n, b); sx_assume(v <= hi); return v; }
/* every value in [lo,hi], explored one by one (used for shapes) */
static inline long sx_choose(const char *n, long lo, long hi) { if (lo == hi) return lo; return sx_concretize(sx_range(n, lo, hi)); }
#define SX_ASSERT(c) sx_assert(!!(c), #c)
#endif
