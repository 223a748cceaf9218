/* Ghost-address models of the memory primitives, for proofs over buffers of unbounded size.
 *
 * vp_g0 is one arbitrary byte chosen by the harness (never constrained further), vp_g1 is the image of that byte
 * under the last copy that read it. A primitive that writes a range forgets the whole written object and then
 * assumes exactly what the primitive guarantees about the bytes at vp_g0/vp_g1 (and, in the CONST variants,
 * nothing is forgotten because CBMC's own exact model is used). Forgetting more and assuming only true facts is an
 * over-approximation: a proof over this model holds for the real primitive. */
#ifndef VP_MEM_H
#define VP_MEM_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <stdbool.h>
_Bool nondet_bool(void);
size_t nondet_size_t(void);
unsigned nondet_uint(void);
int nondet_int(void);
char nondet_char(void);
uint64_t nondet_uint64_t(void);

char *vp_g0, *vp_g1;
#define VP_SAME(g,p) (__CPROVER_POINTER_OBJECT(g)==__CPROVER_POINTER_OBJECT(p))
#define VP_IN(g,p,n) ((g)!=NULL && VP_SAME(g,p) && __CPROVER_POINTER_OFFSET(g)>=__CPROVER_POINTER_OFFSET(p) && (size_t)(__CPROVER_POINTER_OFFSET(g)-__CPROVER_POINTER_OFFSET(p))<(n))
#define VP_D(g,p) ((size_t)(__CPROVER_POINTER_OFFSET(g)-__CPROVER_POINTER_OFFSET(p)))

/* VP_PREFIX: also keep the first 10 bytes of the written object that the copy does not overwrite (headers) */
#ifdef VP_PREFIX
#define VP_KEPT(d,n,j) ((j) < __CPROVER_OBJECT_SIZE(d) && !((j) >= __CPROVER_POINTER_OFFSET(d) && (j) - __CPROVER_POINTER_OFFSET(d) < (n)))
#define VP_BASE(d) ((char*)(d) - __CPROVER_POINTER_OFFSET(d))
#define VP_SAVE(j) char k##j = VP_KEPT(d,n,j##UL) ? VP_BASE(d)[j] : 0;
#define VP_REST(j) if (VP_KEPT(d,n,j##UL)) __CPROVER_assume(VP_BASE(d)[j] == k##j);
#define VP_ALL(M) M(0) M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(9)
#else
#define VP_ALL(M)
#endif
static void *vp_memcpy(void *d, const void *s, size_t n) {
  if (n == 0) return d;
  __CPROVER_assert(__CPROVER_r_ok(s,n), "memcpy reads inside the source object");
  __CPROVER_assert(__CPROVER_w_ok(d,n), "memcpy writes inside the destination object");
  __CPROVER_assert(!VP_SAME(d,s) || VP_D(d,s) >= n && __CPROVER_POINTER_OFFSET(d) >= __CPROVER_POINTER_OFFSET(s) || __CPROVER_POINTER_OFFSET(s) >= __CPROVER_POINTER_OFFSET(d) && VP_D(s,d) >= n, "memcpy ranges do not overlap");
  _Bool s0 = VP_IN(vp_g0,s,n);
  char v0 = vp_g0 ? (VP_IN(vp_g0,d,n) ? ((const char*)s)[VP_D(vp_g0,d)] : *vp_g0) : 0;
  char v1 = vp_g1 ? (VP_IN(vp_g1,d,n) ? ((const char*)s)[VP_D(vp_g1,d)] : *vp_g1) : 0;
  VP_ALL(VP_SAVE)
  __CPROVER_havoc_object(d);
  VP_ALL(VP_REST)
  if (vp_g0) __CPROVER_assume(*vp_g0 == v0);
  if (s0 && !VP_SAME(vp_g0,d)) { vp_g1 = (char*)d + VP_D(vp_g0,s); v1 = v0; }
  if (vp_g1) __CPROVER_assume(*vp_g1 == v1);
  return d;
}
#define memcpy(d,s,n) (__builtin_constant_p(n) ? memcpy(d,s,n) : vp_memcpy(d,s,n))
#endif
