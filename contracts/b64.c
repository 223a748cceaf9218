/* P07: contracts of b64_encode and b64_decode_ex of src/b64.c against RFC 4648.
 * The growing result is one harness object (its contents survive a resize, as WSS_realloc promises, P18) with a ghost
 * size: writes are checked against the ghost size in the stub of the next resize and in the postcondition. */
#define __NO_CTYPE
#include <stdlib.h>
#include <stdbool.h>
#include "b64_spec.h"
_Bool nondet_bool(void); size_t nondet_size_t(void);
#define MAXLEN (1UL<<31)
char *h_src, *h_buf; size_t h_len, h_max, hk, g_size, g_n; _Bool g_oom, g_gone; unsigned char h_exp;
void *WSS_malloc(size_t n) {
  __CPROVER_assert(n == 1 && g_size == 0, "the result starts as one byte");
  if (nondet_bool()) { g_oom = 1; return NULL; }
  g_size = 1; return h_buf;
}
void *WSS_realloc(void **p, size_t o, size_t n) {
  __CPROVER_assert(*p == (void *)h_buf && !g_gone, "the block in use is resized");
  __CPROVER_assert(n <= h_max, "the result never needs more than its bound");
  if (n == 0 || nondet_bool()) { g_oom = 1; g_gone = 1; *p = NULL; return NULL; }
  g_size = n; return h_buf;
}
#include <ctype.h>
#undef isalnum
#include "b64.h"
#ifdef DECODE
/* isalnum in the C locale; it is asked about the characters in order, which tells the ghost count how many are base64 */
static int vp_isalnum(const char *p) {
  unsigned char c = *p;
  __CPROVER_assert(p == h_src + g_n && g_n < h_len && c != '=', "characters are examined in order, inside the text");
  if (b64_is(c)) g_n++;
  return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9');
}
#define isalnum(c) vp_isalnum(&(c))
#define DECSIZE(n) (3 * ((n) / 4) + ((n) % 4 ? (n) % 4 - 1 : 0))
unsigned char e0, e1, e2, e3; size_t h_q; /* the four characters behind byte hk */
#define VAL(k) (h_q + k < g_n ? b64_val(e##k) : 0)
size_t h_dec; unsigned char h_full;
unsigned char *b64_decode_ex(const char *src, size_t len, size_t *decsize)
__CPROVER_requires(src == h_src && len == h_len && (decsize == NULL || decsize == &h_dec) && g_n == 0 && g_size == 0 && !g_oom && !g_gone)
__CPROVER_assigns(g_size, g_n, g_oom, g_gone, h_dec, __CPROVER_object_whole(h_buf))
__CPROVER_ensures(__CPROVER_return_value == NULL ==> g_oom)
/* g_n is the number of leading base64 characters */
__CPROVER_ensures(__CPROVER_return_value != NULL ==> g_n <= h_len && (g_n == h_len || !b64_is(h_src[g_n])))
__CPROVER_ensures(__CPROVER_return_value != NULL ==> __CPROVER_return_value == (unsigned char *)h_buf && g_size == DECSIZE(g_n) + 1 && __CPROVER_return_value[DECSIZE(g_n)] == 0)
__CPROVER_ensures(__CPROVER_return_value != NULL && decsize != NULL ==> h_dec == DECSIZE(g_n))
__CPROVER_ensures(__CPROVER_return_value != NULL && hk < DECSIZE(g_n) ==> __CPROVER_return_value[hk] == b64_dec(hk % 3, VAL(0), VAL(1), VAL(2), VAL(3)))
;
#else
char *b64_encode(const unsigned char *src, size_t len)
__CPROVER_requires(src == (unsigned char *)h_src && len == h_len && g_size == 0 && !g_oom && !g_gone)
__CPROVER_assigns(g_size, g_oom, g_gone, __CPROVER_object_whole(h_buf))
__CPROVER_ensures(__CPROVER_return_value == NULL ==> g_oom)
__CPROVER_ensures(__CPROVER_return_value != NULL ==> __CPROVER_return_value == h_buf && g_size == 4 * ((h_len + 2) / 3) + 1 && __CPROVER_return_value[4 * ((h_len + 2) / 3)] == 0)
__CPROVER_ensures(__CPROVER_return_value != NULL && hk < 4 * ((h_len + 2) / 3) ==> (unsigned char)__CPROVER_return_value[hk] == h_exp)
;
#endif
#include "src/b64.c"
#define REACH __CPROVER_assert(0, "VP_REACH")
static void setup(void) {
  h_len = nondet_size_t(); __CPROVER_assume(h_len < MAXLEN); h_src = malloc(h_len); __CPROVER_assume(h_src != NULL);
  g_size = g_n = 0; g_oom = g_gone = 0; hk = nondet_size_t();
}
#ifdef DECODE
void harness(void) {
  setup(); h_max = 3 * (h_len / 4) + 3; h_buf = malloc(h_max); __CPROVER_assume(h_buf != NULL);
  __CPROVER_assume(hk < MAXLEN); h_q = 4 * (hk / 3);
  if (h_q < h_len) e0 = h_src[h_q]; if (h_q + 1 < h_len) e1 = h_src[h_q + 1]; if (h_q + 2 < h_len) e2 = h_src[h_q + 2]; if (h_q + 3 < h_len) e3 = h_src[h_q + 3];
  h_full = b64_dec(hk % 3, b64_val(e0), b64_val(e1), b64_val(e2), b64_val(e3));
  b64_decode_ex(h_src, h_len, nondet_bool() ? NULL : &h_dec); REACH;
}
#else
void harness(void) {
  setup(); h_max = 4 * ((h_len + 2) / 3) + 1; h_buf = malloc(h_max); __CPROVER_assume(h_buf != NULL);
  __CPROVER_assume(hk < 4 * ((h_len + 2) / 3)); size_t q = 3 * (hk / 4);
  h_exp = b64_enc(hk % 4, h_len - q > 3 ? 3 : h_len - q, h_src[q], q + 1 < h_len ? h_src[q + 1] : 0, q + 2 < h_len ? h_src[q + 2] : 0);
  b64_encode((unsigned char *)h_src, h_len); REACH;
}
#endif
/* decoding an encoded group gives the bytes back (with the lengths: n bytes make n+1 characters before the padding) */
void harness_lemma(void) {
  unsigned char a, b, c; size_t n; unsigned v[4], r; __CPROVER_assume(n >= 1 && n <= 3); unsigned char e[4];
  for (r = 0; r < 4; r++) { e[r] = b64_enc(r, n, a, b, c); __CPROVER_assert(b64_is(e[r]) == (r <= n), "padding starts after n+1 characters"); v[r] = r <= n ? b64_val(e[r]) : 0; }
  __CPROVER_assert(b64_dec(0, v[0], v[1], v[2], v[3]) == a && (n < 2 || b64_dec(1, v[0], v[1], v[2], v[3]) == b) && (n < 3 || b64_dec(2, v[0], v[1], v[2], v[3]) == c), "decoding gives the bytes back");
  REACH;
}
