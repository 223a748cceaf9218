/* P06: well-formed UTF-8 (Unicode table 3-7) as an automaton; contracts for utf8_check of src/utf8.c.
 * The ghost automaton reads every byte of the string exactly once, in order: the models of the vector loads advance it
 * over the block they load, after checking that the block starts where the automaton stands. */
#define VP_OWN_LOAD
#include "utf8_spec.h"
const char *h_src; size_t h_len; size_t g_pos; unsigned char g_st, g_prev; _Bool g_tail; /* bytes read, state after them, last byte read */
#ifdef VP_SCALAR
/* portable variant: the automaton advances with the real one, see below */
#endif
#include <x86intrin.h>
#define EAT(j) { unsigned char b = VP_U(v,j); if (j < n) { g_st = u8_step(g_st, b); g_prev = b; } else ok = ok && b == 0; }
#define LOADFN(T, W, L, NM) \
T nondet_##NM(void); \
T NM(const T *p) { \
  __CPROVER_assert(__CPROVER_r_ok(p, W), "vector load stays inside its object"); \
  __CPROVER_assert(!g_tail, "nothing is loaded after the last block"); \
  T v = *p; size_t n = W; _Bool ok = 1; \
  if (__CPROVER_POINTER_OBJECT(p) == __CPROVER_POINTER_OBJECT(h_src)) { __CPROVER_assert((const char *)p == h_src + g_pos, "blocks are loaded in order"); } \
  else { n = h_len - g_pos; __CPROVER_assert(n < W && g_pos <= h_len, "only the last block is copied"); g_tail = 1; L(TAILB) } \
  L(EAT) __CPROVER_assert(ok, "the last block holds the remaining bytes and is filled up with zeros"); g_pos += n; return v; }
#define TAILB(j) if (j < n) ok = ok && (char)VP_U(v,j) == h_src[g_pos + j];
/* the models below access memory only after checking the whole range explicitly */
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "signed-overflow"
#ifdef __AVX2__
LOADFN(__m256i, 32, VP_L32, _mm256_loadu_si256)
#define W 32
#else
LOADFN(__m128i, 16, VP_L16, _mm_loadu_si128)
#define W 16
#endif
/* exact copy and fill of less than one block */
#define CP(j) if (j < n) ((char *)d)[j] = ((const char *)s)[j];
static void *vp_cpy(void *d, const void *s, size_t n) {
  __CPROVER_assert(n <= W, "only the last block is copied"); __CPROVER_assert(__CPROVER_r_ok(s, n), "copy reads inside the string"); __CPROVER_assert(__CPROVER_w_ok(d, n), "copy writes inside the block");
  VP_L32(CP) return d; }
#define ST(j) if (j < n) ((char *)d)[j] = (char)c;
static void *vp_set(void *d, int c, size_t n) {
  __CPROVER_assert(n <= W, "only the last block is filled"); __CPROVER_assert(__CPROVER_w_ok(d, n), "fill inside the block");
  VP_L32(ST) return d; }
#pragma CPROVER check pop
#define memcpy vp_cpy
#define memset vp_set
#define REACH __CPROVER_assert(0, "VP_REACH")
bool utf8_check(const char *src, size_t len)
__CPROVER_requires(src == h_src && len == h_len && g_pos == 0 && g_st == U_OK && g_prev == 0 && !g_tail)
__CPROVER_assigns(g_pos, g_st, g_prev, g_tail)
__CPROVER_ensures(g_pos == h_len)
__CPROVER_ensures(__CPROVER_return_value == (g_st == U_OK))
;
#include "src/utf8.c"
/* what the vector code remembers of the bytes before a block, as a function of the automaton's state */
#define CARRY(k) VP_S(PREV_C, W-1-(k))
void harness(void) {
  h_len = nondet_size_t(); __CPROVER_assume(h_len < (1UL << 32));
  char *s = malloc(h_len); __CPROVER_assume(s != NULL); h_src = s;
  g_pos = 0; g_st = U_OK; g_prev = 0; g_tail = 0;
  utf8_check(h_src, h_len);
  REACH;
}
