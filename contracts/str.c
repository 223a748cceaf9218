/* P19: contracts of src/str.c. */
#include "common.h"
#undef memcpy
#include <stdio.h>
#include <errno.h>
#define MAXLEN (1UL<<40)
size_t hk, h_len; unsigned char h_b; const unsigned char *h_bin; char *h_out;
/* strinarray: every entry of the list is NULL, a string equal to the needle, or another string; which, is arbitrary */
const char *h_needle, *h_eq, *h_ne; size_t h_nelen, h_diff; const char **h_hay; size_t h_size; _Bool g_hit;
static size_t vp_strlen(const char *s) {
  __CPROVER_assume(s == h_needle || s == h_eq || s == h_ne); /* what the list consists of (one instance of the assumption on every entry) */
  return s == h_ne ? h_nelen : h_len; }
static int vp_strncmp(const char *a, const char *b, size_t n) {
  __CPROVER_assume(a == h_needle || a == h_eq || a == h_ne); __CPROVER_assume(b == h_needle || b == h_eq || b == h_ne);
  int r = nondet_int(); __CPROVER_assume((r == 0) == (((a == h_ne) == (b == h_ne)) || n <= h_diff)); /* h_diff: first index where h_ne and the needle differ */
  if (r == 0 && a != h_ne && b != h_ne) g_hit = 1;
  return r; }
static int vp_strcmp(const char *a, const char *b) { return vp_strncmp(a, b, (size_t)-1); }
/* strload: one file with arbitrary contents; every operation may fail */
FILE h_file; size_t h_fsize, g_at; char h_fb; _Bool g_open, g_end, g_err; char *h_path; long g_told; char *h_blk, **h_str; _Bool g_alloc;
static FILE *vp_fopen(const char *p, const char *m) { if (nondet_bool()) { g_err = 1; return NULL; } g_open = 1; g_at = 0; return &h_file; }
static int vp_fseek(FILE *f, long o, int w) { __CPROVER_assert(f == &h_file && g_open, "an open file"); if (nondet_bool()) { g_err = 1; return -1; } g_at = w == SEEK_END ? h_fsize + o : w == SEEK_SET ? o : g_at + o; return 0; }
static long vp_ftell(FILE *f) { __CPROVER_assert(f == &h_file && g_open, "an open file"); if (nondet_bool()) { g_err = 1; return nondet_bool() ? -1 : __LONG_MAX__; } return g_at; }
static size_t vp_fread(void *d, size_t s, size_t n, FILE *f) {
  __CPROVER_assert(f == &h_file && g_open && s == 1, "an open file"); __CPROVER_assert(n == 0 || __CPROVER_w_ok(d, n), "reads into the buffer only");
  size_t left = h_fsize - g_at, m = n < left ? n : left; if (nondet_bool()) { g_err = 1; m = nondet_size_t(); __CPROVER_assume(m < n); }
  if (n > 0) { char keep = h_blk[h_fsize]; __CPROVER_havoc_object(d); __CPROVER_assume(h_blk[h_fsize] == keep); if (g_at == 0 && hk < m) __CPROVER_assume(((char *)d)[hk] == h_fb); }
  if (m != n) g_err = 1; g_at += m; return m; }
static int vp_fclose(FILE *f) { __CPROVER_assert(f == &h_file && g_open, "an open file is closed once"); g_open = 0; if (nondet_bool()) { g_err = 1; return EOF; } return 0; }
#define fopen vp_fopen
#define fseek vp_fseek
#define ftell vp_ftell
#define fread vp_fread
#define fclose vp_fclose
#ifdef STRLOAD
#define WSS_malloc(n) sl_malloc(n)
#define WSS_free(p) sl_free(p)
static void *sl_malloc(size_t n) { if (n == 0) return NULL; if (nondet_bool() || n >= MAXLEN) { vp_oom = 1; return NULL; } __CPROVER_assert(!g_alloc && n == h_fsize + 1, "one buffer for the file and a terminator"); g_alloc = 1; h_blk[h_fsize] = 0; return h_blk; }
static void sl_free(void **p) { if (*p != NULL) { __CPROVER_assert(*p == (void *)h_blk && g_alloc, "the buffer is released, once"); g_alloc = 0; *p = NULL; } }
#endif
#define HEX(v) ((v) < 10 ? '0' + (v) : 'A' + ((v) - 10))
#define ISHEX(c, v) ((c) == ((v) < 10 ? '0' + (v) : 'A' + ((v) - 10)) || (c) == ((v) < 10 ? '0' + (v) : 'a' + ((v) - 10)))
char *bin2hex(const unsigned char *bin, size_t len)
__CPROVER_requires(bin == h_bin && len == h_len && !vp_oom)
__CPROVER_assigns(vp_oom)
__CPROVER_ensures((__CPROVER_return_value == NULL) == vp_oom)
__CPROVER_ensures(__CPROVER_return_value != NULL ==> __CPROVER_r_ok(__CPROVER_return_value, 2 * len + 1) && __CPROVER_return_value[2 * len] == 0)
__CPROVER_ensures(__CPROVER_return_value != NULL && hk < len ==> ISHEX(__CPROVER_return_value[2 * hk], h_b >> 4) && ISHEX(__CPROVER_return_value[2 * hk + 1], h_b & 15))
;
int strinarray(const char *needle, const char **haystack, size_t size)
__CPROVER_requires((needle == NULL || needle == h_needle) && haystack == h_hay && size == h_size && !g_hit)
__CPROVER_assigns(g_hit)
__CPROVER_ensures(__CPROVER_return_value == 0 || __CPROVER_return_value == -1)
__CPROVER_ensures(__CPROVER_return_value == 0 ==> needle != NULL && g_hit)
__CPROVER_ensures(needle != NULL && hk < size && h_hay[hk] == h_eq ==> __CPROVER_return_value == 0)
;
size_t strload(char *path, char **str)
__CPROVER_requires(path == h_path && str == h_str && !g_open && !g_err && !g_alloc && !vp_oom)
__CPROVER_assigns(*str, g_open, g_at, g_err, g_alloc, vp_oom, __CPROVER_object_whole(h_blk))
__CPROVER_ensures(!g_open)
__CPROVER_ensures(g_err || vp_oom ==> __CPROVER_return_value == 0 && *str == NULL)
__CPROVER_ensures(*str == NULL ==> !g_alloc)
__CPROVER_ensures(!g_err && !vp_oom ==> __CPROVER_return_value == h_fsize && g_alloc && *str == h_blk && (*str)[h_fsize] == 0)
__CPROVER_ensures(!g_err && !vp_oom && hk < h_fsize ==> (*str)[hk] == h_fb)
;
#define strlen vp_strlen
#define strncmp vp_strncmp
#define strcmp vp_strcmp
char *vp_strerror(int e) { return ""; }
#define strerror vp_strerror
#include "src/str.c"
void h_bin2hex(void) {
  h_len = nondet_size_t(); __CPROVER_assume(h_len < MAXLEN); unsigned char *b = malloc(h_len); __CPROVER_assume(b != NULL);
  hk = nondet_size_t(); if (hk < h_len) h_b = b[hk]; h_bin = b; vp_oom = 0; bin2hex(b, h_len); REACH; }
void h_strinarray(void) {
  char a, b, c; h_needle = &a; h_eq = nondet_bool() ? &a : &b; h_ne = &c; h_len = nondet_size_t(); h_nelen = nondet_size_t(); h_diff = nondet_size_t();
  __CPROVER_assume(h_diff <= h_len && h_diff <= h_nelen && (h_len == h_nelen ? h_diff < h_len : 1) && h_len < MAXLEN && h_nelen < MAXLEN);
  h_size = nondet_size_t(); __CPROVER_assume(h_size < (1UL << 31)); h_hay = malloc(h_size * sizeof(char *)); __CPROVER_assume(h_hay != NULL);
  hk = nondet_size_t(); g_hit = 0; strinarray(nondet_bool() ? NULL : h_needle, h_hay, h_size); REACH; }
void h_strload(void) {
  char *s, p; h_fsize = nondet_size_t(); __CPROVER_assume(h_fsize < MAXLEN); hk = nondet_size_t(); h_fb = nondet_char();
  h_path = &p; h_str = &s; g_open = g_err = g_alloc = vp_oom = 0; h_blk = malloc(h_fsize + 1); __CPROVER_assume(h_blk != NULL); strload(&p, &s); REACH; }
