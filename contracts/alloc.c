/* P18: contracts of the allocation layer src/alloc.c. The allocator underneath is represented by what the C standard
 * (or rpmalloc's documentation) promises: a block may be refused at any time, the contents of a fresh block are
 * arbitrary, a resize keeps the common prefix or fails and keeps the old block, and only a live block may be freed.
 * hk is one arbitrary byte index; g is the byte of the newest block at that index. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <stdbool.h>
_Bool nondet_bool(void); size_t nondet_size_t(void);
#define MAXLEN (1UL<<40)
size_t hk, h_o; char *g, *h_blk, *g_new, h_v; _Bool g_oom, g_freed, g_moved;
#define SAME(a,b) (__CPROVER_POINTER_OBJECT(a)==__CPROVER_POINTER_OBJECT(b))
#define OFF(a) __CPROVER_POINTER_OFFSET(a)
static void *fresh(size_t n) {
  __CPROVER_assert(n > 0, "nothing of zero size is requested from the allocator");
  if (nondet_bool() || n >= MAXLEN) { g_oom = 1; return NULL; }
  char *p = malloc(n); __CPROVER_assume(p != NULL);
  g = hk < n ? p + hk : NULL; g_new = p;
  return p;
}
static void *vp_calloc(size_t m, size_t n, _Bool checks) {
  if (checks && m != 0 && n > ((size_t)-1) / m) { g_oom = 1; return NULL; }
  char *p = fresh(m * n);
  if (p != NULL && g != NULL) *g = 0;
  return p;
}
static void vp_free(void *p) {
  if (p == NULL) return;
  __CPROVER_assert(p == h_blk && !g_freed && !g_moved, "only a live block is freed, once");
  g_freed = 1;
}
static void *vp_realloc(void *o, size_t n) {
  __CPROVER_assert(o == NULL || o == h_blk && !g_freed && !g_moved, "only a live block is resized");
  char *p = fresh(n);
  if (p == NULL) return NULL;
  if (o != NULL) { g_moved = 1; if (g != NULL && hk < h_o) *g = h_blk[hk]; }
  return p;
}
static void *vp_memset(void *d, int c, size_t n) {
  __CPROVER_assert(n == 0 || __CPROVER_w_ok(d, n), "memset stays inside its block");
  if (n == 0) return d;
  _Bool in = g != NULL && SAME(g, d) && OFF(g) >= OFF(d) && OFF(g) - OFF(d) < n; char v = g != NULL ? *g : 0;
  __CPROVER_havoc_object(d);
  if (g != NULL) __CPROVER_assume(*g == (in ? (char)c : v));
  return d;
}
static void *vp_memcpy(void *d, const void *s, size_t n) {
  __CPROVER_assert(n == 0 || __CPROVER_w_ok(d, n), "memcpy writes inside its block");
  __CPROVER_assert(n == 0 || __CPROVER_r_ok(s, n), "memcpy reads inside its source");
  if (n == 0) return d;
  _Bool in = g != NULL && SAME(g, d) && OFF(g) >= OFF(d) && OFF(g) - OFF(d) < n; char v = g == NULL ? 0 : in ? ((const char *)s)[OFF(g) - OFF(d)] : *g;
  __CPROVER_havoc_object(d);
  if (g != NULL) __CPROVER_assume(*g == v);
  return d;
}
#include "rpmalloc.h"
#ifdef USE_RPMALLOC
void *rpmalloc(size_t n) { return fresh(n); }
void *rpcalloc(size_t m, size_t n) { return vp_calloc(m, n, 0); } /* rpmalloc's default build does not check for overflow */
void *rprealloc(void *p, size_t n) { return vp_realloc(p, n); }
void rpfree(void *p) { vp_free(p); }
#else
#define malloc(n) fresh(n)
#define calloc(m,n) vp_calloc(m, n, 1)
#define realloc(p,n) vp_realloc(p, n)
#define free(p) vp_free(p)
#endif
#define memset vp_memset
#define memcpy vp_memcpy
#define OUT g, g_oom, g_freed, g_moved, g_new
#define NEW(n) (__CPROVER_return_value != NULL ==> __CPROVER_rw_ok(__CPROVER_return_value, n))
#define AT ((char *)__CPROVER_return_value)[hk]
void *WSS_malloc(size_t size)
__CPROVER_requires(!g_oom) __CPROVER_assigns(OUT)
__CPROVER_ensures((__CPROVER_return_value == NULL) == (size == 0 || g_oom))
__CPROVER_ensures(NEW(size)) __CPROVER_ensures(__CPROVER_return_value != NULL && hk < size ==> AT == 0)
;
void *WSS_calloc(size_t memb, size_t size)
__CPROVER_requires(!g_oom) __CPROVER_assigns(OUT)
__CPROVER_ensures(size == 0 || memb == 0 ? __CPROVER_return_value == NULL : (__CPROVER_return_value == NULL ==> g_oom || memb > ((size_t)-1) / size))
__CPROVER_ensures(__CPROVER_return_value != NULL ==> memb <= ((size_t)-1) / size)
__CPROVER_ensures(NEW(memb * size)) __CPROVER_ensures(__CPROVER_return_value != NULL && hk < memb * size ==> AT == 0)
;
void *WSS_copy(void *ptr, size_t size)
__CPROVER_requires(!g_oom && (ptr == NULL || ptr == h_blk && size <= h_o)) __CPROVER_assigns(OUT)
__CPROVER_ensures((__CPROVER_return_value == NULL) == (ptr == NULL || size == 0 || g_oom))
__CPROVER_ensures(NEW(size)) __CPROVER_ensures(__CPROVER_return_value != NULL && hk < size ==> AT == h_v)
__CPROVER_ensures(__CPROVER_return_value != NULL ==> __CPROVER_return_value != ptr) __CPROVER_ensures(!g_freed && !g_moved)
;
void *WSS_realloc(void **ptr, size_t oldSize, size_t newSize)
__CPROVER_requires(!g_oom && !g_freed && !g_moved && (ptr == NULL || __CPROVER_rw_ok(ptr, sizeof(*ptr)) && (*ptr == NULL || *ptr == h_blk && oldSize <= h_o)))
__CPROVER_assigns(OUT) __CPROVER_assigns(ptr != NULL: *ptr)
__CPROVER_ensures((__CPROVER_return_value == NULL) == (newSize == 0 || g_oom))
__CPROVER_ensures(NEW(newSize))
__CPROVER_ensures(__CPROVER_return_value != NULL && hk < newSize && hk >= oldSize ==> AT == 0)
__CPROVER_ensures(__CPROVER_return_value != NULL && hk < newSize && hk < oldSize && ptr != NULL && g_moved ==> AT == h_v)
/* nothing is left dangling, nothing is lost */
__CPROVER_ensures(__CPROVER_return_value == NULL && ptr != NULL ==> *ptr == NULL)
;
void *WSS_realloc_normal(void *ptr, size_t newSize)
__CPROVER_requires(!g_oom && !g_freed && !g_moved && (ptr == NULL || ptr == h_blk))
__CPROVER_assigns(OUT)
__CPROVER_ensures((__CPROVER_return_value == NULL) == (newSize == 0 || g_oom))
__CPROVER_ensures(NEW(newSize))
__CPROVER_ensures(__CPROVER_return_value != NULL && hk < newSize && hk < h_o && ptr != NULL ==> AT == h_v)
__CPROVER_ensures(ptr != NULL && newSize == 0 ==> g_freed) __CPROVER_ensures(ptr != NULL ==> (__CPROVER_return_value == NULL) == g_freed && (__CPROVER_return_value != NULL) == g_moved)
;
#ifndef NDEBUG
void WSS_free(void **ptr)
__CPROVER_requires(!g_freed && !g_moved && __CPROVER_rw_ok(ptr, sizeof(*ptr)) && (*ptr == NULL || *ptr == h_blk))
__CPROVER_assigns(*ptr, g_freed)
__CPROVER_ensures(*ptr == NULL && g_freed == (__CPROVER_old(*ptr) != NULL) && !g_moved)
;
#endif
void WSS_free_normal(void *ptr)
__CPROVER_requires(!g_freed && !g_moved && (ptr == NULL || ptr == h_blk))
__CPROVER_assigns(g_freed)
__CPROVER_ensures(g_freed == (ptr != NULL))
;
#include "src/alloc.c"
#undef malloc
#undef free
#define REACH __CPROVER_assert(0, "VP_REACH")
static void setup(void) {
  hk = nondet_size_t(); h_o = nondet_size_t(); __CPROVER_assume(h_o > 0 && h_o < MAXLEN);
  h_blk = malloc(h_o); __CPROVER_assume(h_blk != NULL);
  g = NULL; g_new = NULL; g_oom = g_freed = g_moved = 0; if (hk < h_o) h_v = h_blk[hk];
}
void h_malloc(void) { setup(); WSS_malloc(nondet_size_t()); REACH; }
void h_calloc(void) { setup(); size_t m = nondet_size_t(), n = nondet_size_t(); WSS_calloc(m, n); REACH; }
void h_copy(void) { setup(); WSS_copy(nondet_bool() ? NULL : h_blk, nondet_size_t()); REACH; }
void h_realloc(void) { setup(); void *b = nondet_bool() ? NULL : h_blk, *b0 = b; _Bool none = nondet_bool(); size_t o = nondet_size_t(), n = nondet_size_t();
  __CPROVER_assume(o <= (b && !none ? h_o : 0));
  void *r = WSS_realloc(none ? NULL : &b, o, n);
  if (!none && b0) { __CPROVER_assert((r == NULL) == g_freed, "a failed or zero-sized resize releases the old block"); __CPROVER_assert((r != NULL) == g_moved, "a successful resize takes the old block over"); }
  else __CPROVER_assert(!g_freed && !g_moved, "nothing else is released");
  REACH; }
void h_realloc_normal(void) { setup(); WSS_realloc_normal(nondet_bool() ? NULL : h_blk, nondet_size_t()); REACH; }
void h_free(void) { setup(); void *b = nondet_bool() ? NULL : h_blk; WSS_free(&b); __CPROVER_assert(b == NULL, "freeing clears the pointer, so that a second free releases nothing"); REACH; }
void h_free_normal(void) { setup(); WSS_free_normal(nondet_bool() ? NULL : h_blk); REACH; }
