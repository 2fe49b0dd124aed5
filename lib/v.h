/* Harness vocabulary.  One source, two readings:
 *   V_CBMC   - goto-cc/cbmc: V_IN* are unconstrained values, V_ASSUME restricts, V_CHECK is a proof obligation,
 *              V_REACH is a vacuity guard (it must be reported reachable).
 *   native   - gcc: the same text is executed on the real code; V_IN* are read from a replay file written from the
 *              verifier's counterexample (or drawn at random when searching), V_CHECK is tested.
 */
#ifndef V_H
#define V_H
#undef _GNU_SOURCE
#define _GNU_SOURCE 1
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <limits.h>
#include <assert.h>
#include <errno.h>
#ifdef V_CBMC
long long nondet_ll(void);
long long v_choice;
static inline long long v_in(long long lo, long long hi) {
	long long x = nondet_ll();
	__CPROVER_assume(x >= lo && x <= hi);
	v_choice = x;
	return x;
}
#define V_ASSUME(c) __CPROVER_assume(c)
#define V_CHECK(c, l) __CPROVER_assert((c), l)
#define V_REACH(l) __CPROVER_assert(0, "REACH: " l)
#define V_LIVE(p) __CPROVER_r_ok((const char *)(p), 1)
#define V_RW_OK(p, n) __CPROVER_rw_ok((p), (n))
#define V_SAME_OBJ(a, b) __CPROVER_same_object((a), (b))
#define V_IN_OBJ(m, o, n) __CPROVER_same_object((m), (o))
#else
void v_native_reject(const char *what);
void v_native_fail(const char *label, const char *cond);
long long v_native_in(long long lo, long long hi);
#define v_in v_native_in
#define V_ASSUME(c) do { if (!(c)) v_native_reject(#c); } while (0)
#define V_CHECK(c, l) do { if (!(c)) v_native_fail(l, #c); } while (0)
#define V_REACH(l) do { } while (0)
#define V_LIVE(p) (*(volatile const char *)(p), 1)
#define V_RW_OK(p, n) 1
#define V_SAME_OBJ(a, b) 1
#define V_IN_OBJ(m, o, n) ((char *)(m) >= (char *)(o) && (char *)(m) <= (char *)(o) + (n))
#endif
#define V_IN(T, lo, hi) ((T)v_in((long long)(lo), (long long)(hi)))
#define V_BOOL() ((bool)v_in(0, 1))
#define V_INT() ((int)v_in(INT_MIN, INT_MAX))
#define V_I64() ((int64_t)v_in(LLONG_MIN, LLONG_MAX))
#define V_U8() ((unsigned char)v_in(0, 255))
#define V_U16() ((uint16_t)v_in(0, 65535))
#define V_U32() ((uint32_t)v_in(0, 0xffffffffLL))
#define V_IMPLIES(a, b) (!(a) || (b))
/* allocation in a harness never fails (stated assumption) */
static inline void *v_alloc(size_t n) {
	void *p = malloc(n ? n : 1);
	V_ASSUME(p != NULL);
	return p;
}

/* typed allocation: the verifier sees an object of type T, not an array of bytes */
#define V_NEW(T) ({ T *v_p_ = (T *)malloc(sizeof(T)); V_ASSUME(v_p_ != NULL); v_p_; })
#define V_ZERO(p) do { __typeof__(*(p)) v_z_ = {0}; *(p) = v_z_; } while (0)
#define V_NEWZ(T) ({ T *v_q_ = V_NEW(T); T v_z_ = {0}; *v_q_ = v_z_; v_q_; })
/* Small-object byte copies.  With V_SMALLMEM=n, memcpy/memmove/memset in the code under contract are executed byte by
 * byte for up to n bytes (larger requests fail an obligation), which the back end handles far better than array copies. */
#ifdef V_SMALLMEM
static inline void *v_memmove(void *d, const void *s, size_t n) {
	char t[V_SMALLMEM];
	V_CHECK(n <= V_SMALLMEM, "copy length within the harness bound");
	for (size_t i = 0; i < V_SMALLMEM; i++) { if (i >= n) break; t[i] = ((const char *)s)[i]; }
	for (size_t i = 0; i < V_SMALLMEM; i++) { if (i >= n) break; ((char *)d)[i] = t[i]; }
	return d;
}
#endif

/* Copy contract with witnesses, for copies of unbounded length: the destination becomes arbitrary except that every
 * registered source byte arrives at its place.  memmove/memcpy's own contract, restricted to the registered bytes. */
#define V_NWIT 3
#ifdef V_CBMC
static const char *v_wit[V_NWIT];
#define V_WITNESS(i, p) (v_wit[i] = (const char *)(p))
static inline void *v_wcopy(void *d, const void *s, size_t n) {
	V_CHECK(n == 0 || __CPROVER_w_ok(d, n), "copy destination inside its allocation");
	V_CHECK(n == 0 || __CPROVER_r_ok(s, n), "copy source inside its allocation");
	char val[V_NWIT]; bool in[V_NWIT]; size_t off[V_NWIT];
	in[0] = v_wit[0] && __CPROVER_same_object(v_wit[0], s) && v_wit[0] >= (const char *)s && (size_t)(v_wit[0] - (const char *)s) < n;
	if (in[0]) { off[0] = v_wit[0] - (const char *)s; val[0] = *v_wit[0]; }
	in[1] = v_wit[1] && __CPROVER_same_object(v_wit[1], s) && v_wit[1] >= (const char *)s && (size_t)(v_wit[1] - (const char *)s) < n;
	if (in[1]) { off[1] = v_wit[1] - (const char *)s; val[1] = *v_wit[1]; }
	in[2] = v_wit[2] && __CPROVER_same_object(v_wit[2], s) && v_wit[2] >= (const char *)s && (size_t)(v_wit[2] - (const char *)s) < n;
	if (in[2]) { off[2] = v_wit[2] - (const char *)s; val[2] = *v_wit[2]; }
#ifdef V_WCOPY_OBJ
	if (n > 0) __CPROVER_havoc_object(d);
#else
	if (n > 0) __CPROVER_havoc_slice(d, n);
#endif
	if (in[0]) ((char *)d)[off[0]] = val[0];
	if (in[1]) ((char *)d)[off[1]] = val[1];
	if (in[2]) ((char *)d)[off[2]] = val[2];
	return d;
}
#else
#define V_WITNESS(i, p) ((void)(p))
#define v_wcopy memmove
#endif

/* release tracking: which allocations the code under contract has freed (use with: #define free v_free, #define xfree v_free) */
static const void *v_freed[16]; static int v_nfreed;
static inline void v_free(void *p) {
	if (p) { V_CHECK(v_nfreed < 16, "number of releases within the harness bound"); v_freed[v_nfreed++] = p; }
	(free)(p);
}
static inline int v_times_freed(const void *p) {
	int c = 0;
	for (int i = 0; i < 16; i++) if (i < v_nfreed && v_freed[i] == p) c++;
	return c;
}
#endif
