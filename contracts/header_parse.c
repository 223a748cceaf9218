/* P10: WSS_parse_header of src/header.c. All strings it handles lie in the received bytes, C[0..L], C[L] == 0, or in the collected list of extensions, E; the string functions are
 * represented by what they may do to such strings. */
#include "mem.h"
#include <stdio.h>
#include <string.h>
#include <strings.h>
#include <ctype.h>
#include <stdlib.h>
#include <regex.h>
#include "header.h"
#include "alloc.h"
#include "b64.h"
#include "str.h"
#include "log.h"
#include "subprotocols.h"
#include "extensions.h"
#undef memcpy
#undef strlen
#define REACH __CPROVER_assert(0, "VP_REACH")
#define A_(c, t) __CPROVER_assert(c, t)
#define log_log(...) ((void)0)
#define OFF(p) __CPROVER_POINTER_OFFSET(p)
#ifdef PARSE
/* Nothing in C changes at or after the place the tokenizer has reached except the terminator at the end of the last line, G.te: the strings of a line end at G.te at the latest, and only they are
 * cut and trimmed. The code reads C only from the tokenizer's position on, so the content of C stays as it was received. */
char *C, *E; size_t L, Z, h_pathlen; wss_header_t *h_h; wss_config_t *h_c; wss_subprotocol_t *h_p; wss_extension_t *h_x[3]; unsigned h_nx; char *h_name[4]; char *h_acc[4];
struct { size_t exn, sum, toklen, te, hi, hin; char *tok; int exlive, names, accs, asks; _Bool m_ok, v_ok, m_no, v_no; } G;
const int k_OK = HttpStatus_OK;
#define INC(p) (VP_SAME(p, C) && OFF(p) <= L)
#define INT(p) (VP_SAME(p, C) && OFF(p) <= G.te)
#define INE(p) (VP_SAME(p, E) && G.exlive && OFF(p) < G.exn)
#define STR(p) (INT(p) || INE(p))
#define TERM (G.exn > 1 && (E[G.exn - 1] == 0 || E[G.exn - 2] == 0))
char *vp_strtok_r(char *s, const char *delim, char **save) {
  char *p = s != NULL ? s : *save; size_t e = nondet_size_t(), a = nondet_size_t(), b = nondet_size_t();
  if (delim[0] == '\r') { A_(p != NULL && INC(p), "goes on with the request"); __CPROVER_assume(OFF(p) <= e && e <= L && C[e] == 0); if (nondet_bool()) { *save = C + e; return NULL; }
    __CPROVER_assume(OFF(p) <= a && a < b && b <= e); *save = C + (b == e ? e : b + 1); G.te = b; G.tok = C + a; G.toklen = b - a; if (s == NULL) G.sum += b - a; return C + a; }
  A_(p != NULL && STR(p), "goes on within a string"); _Bool in = VP_SAME(p, C); size_t z; char *base; if (in) { z = G.te; base = C; } else { A_(TERM, "the list of extensions is terminated"); z = G.exn - 1; base = E; } __CPROVER_assume(OFF(p) <= e && e <= z);
#ifdef FEW /* a bounded number of entries in the list of extensions */
  if (!in && delim[0] == ',') { if (G.asks >= FEW) { *save = E + e; return NULL; } G.asks++; }
#endif
  if (nondet_bool()) { *save = base + e; return NULL; }
  __CPROVER_assume(OFF(p) <= a && a < b && b <= e); *save = base + (b == e ? e : b + 1); return base + a; }
size_t vp_strlen(const char *s) {
  A_(s != NULL && (INC(s) || INE(s)), "the length of a string"); size_t n = nondet_size_t(); if (!VP_SAME(s, C)) { __CPROVER_assume(n < G.exn - OFF(s)); return n; } __CPROVER_assume(n <= (OFF(s) <= G.te ? G.te : L) - OFF(s));
  if (s == G.tok) { __CPROVER_assume(n == G.toklen); } else if (s == h_h->path) { __CPROVER_assume(n == h_pathlen); }
  if (OFF(s) > G.te && OFF(s) == G.hi) { __CPROVER_assume(n == G.hin); } if (OFF(s) >= G.hi) { G.hi = OFF(s); G.hin = n; } return n; }
static int cmp(const char *s) { A_(s != NULL && (INC(s) || INE(s)), "compares a string"); return nondet_int(); }
#define strlen(x) (__builtin_constant_p(*(x)) ? sizeof(x) - 1 : vp_strlen(x))
#define strncasecmp(a, b, n) cmp(__builtin_constant_p(*(a)) ? (b) : (a))
#define strncmp(a, b, n) cmp(__builtin_constant_p(*(a)) ? (b) : (a))
#define strtok_r vp_strtok_r
long vp_strtol(const char *s) { A_(s != NULL && STR(s), "a number in a string"); long v = nondet_long(); return v; }
#define strtol(s, e, b) vp_strtol(s)
int strinarray(const char *n, const char **hay, size_t size);
size_t vp_strspn(const char *s, const char *a) { return 0; }
#define strspn vp_strspn
#define strcspn vp_strspn
void *vp_memcpy_(void *d, const void *s, size_t n) {
  if (VP_SAME(d, E)) { A_(G.exlive && OFF(d) <= G.exn && n <= G.exn - OFF(d), "copies inside the list of extensions"); A_(n == 0 || (s != NULL && INT(s) && n <= G.te - OFF(s)), "copies a value, whole");
    if (G.exn > 1 && n > 0 && OFF(d) + n >= G.exn - 1) { E[G.exn - 1] = nondet_char(); E[G.exn - 2] = nondet_char(); } return d; }
  A_(__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n), "copies inside the objects"); return d; }
void *vp_ptrcpy(wss_ext_t **d, wss_ext_t **s, size_t n) { A_(n % sizeof *d == 0 && n <= 3 * sizeof *d && __CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n), "copies inside the list"); for (size_t i = 0; i < 3; i++) if (i * sizeof *d < n) d[i] = s[i]; return d; }
#ifdef FEW
#define memcpy(d, s, n) _Generic((d), wss_ext_t **: vp_ptrcpy((wss_ext_t **)(void *)(d), (wss_ext_t **)(void *)(s), n), default: vp_memcpy_((void *)(d), (const void *)(s), n))
#else
#define memcpy vp_memcpy_
#endif
static char names_[4], accs_[4]; extern const char *methods[], *versions[];
#undef WSS_free
#undef WSS_realloc
#undef WSS_malloc
#undef WSS_copy
void *vp_realloc(void **p, size_t o, size_t n) { A_(*p == NULL ? !G.exlive : *p == (void *)E && G.exlive && o <= G.exn, "the list of extensions grows"); A_(n > o && n > 1, "by what is added"); if (n > Z || nondet_bool()) { *p = NULL; G.exlive = 0; return NULL; } E[n - 1] = nondet_char(); E[n - 2] = nondet_char(); G.exn = n; G.exlive = 1; return E; }
void *vp_copy(void *p, size_t n) { A_(p != NULL && STR((char *)p) && n - 1 <= (VP_SAME(p, C) ? G.te : G.exn - 1) - OFF(p), "copies a name, whole"); if (nondet_bool()) return NULL; G.names++; A_(G.names <= 4, "names"); return &names_[G.names - 1]; }
void vp_free(void **p) { if (*p == NULL) return; if (*p == (void *)E) { A_(G.exlive, "the list of extensions is released once"); G.exlive = 0; } else if (VP_SAME(*p, names_)) { A_(G.names > 0 && *p == (void *)&names_[G.names - 1], "a name is released once"); G.names--; } else if (VP_SAME(*p, accs_)) { A_(G.accs > 0, "once"); G.accs--; } else free(*p); *p = NULL; }
void *vp_alloc(size_t n) { if (nondet_bool()) return NULL; void *q = calloc(1, n); __CPROVER_assume(q); return q; }
#define WSS_realloc vp_realloc
#define WSS_copy(p, n) vp_copy(p, n)
#define WSS_free vp_free
#define WSS_malloc vp_alloc
unsigned char *b64_decode_ex(const char *s, size_t n, size_t *d) { return NULL; }
int strinarray(const char *n, const char **hay, size_t size) { A_(n != NULL && STR(n), "looks up a string"); A_(size == 1, "in a list"); _Bool in = nondet_bool(); if (hay == methods) { G.m_ok = in; G.m_no = !in; } else { G.v_ok = in; G.v_no = !in; } return in ? 0 : -1; }
wss_subprotocol_t *WSS_find_subprotocol(char *n) { A_(n != NULL && STR(n), "looks up a string"); return nondet_bool() ? h_p : NULL; }
#ifdef FEW
static struct { int opened[2], nvalid, kind[4]; char *acc[4]; } X; /* which extensions were asked, which agreed, in what order */
static void st_open(int k, char *param, char **accepted, bool *valid) { A_(param == NULL || STR(param), "the parameters are a string"); X.opened[k]++; _Bool v = nondet_bool(); char *a = NULL; if (nondet_bool()) { A_(G.accs < 4, "accs"); a = &accs_[G.accs]; *accepted = a; G.accs++; }
  *valid = v; if (v) { A_(X.nvalid < 4, "valid"); X.kind[X.nvalid] = k; X.acc[X.nvalid] = a; X.nvalid++; } }
static void st_open0(int fd, char *param, char **accepted, bool *valid) { st_open(0, param, accepted, valid); }
static void st_open1(int fd, char *param, char **accepted, bool *valid) { st_open(1, param, accepted, valid); }
wss_extension_t *WSS_find_extension(char *n) { A_(VP_SAME(n, names_), "looks up a name"); unsigned i = nondet_uint(); return i == 0 ? h_x[0] : i == 1 ? h_x[1] : NULL; }
#else
wss_extension_t *WSS_find_extension(char *n) { return NULL; }
#endif
static inline char *trim(char *str)
__CPROVER_requires(str == NULL || STR(str)) __CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == str)
;
#define KEEP(p) ((p) == NULL || INC(p))
#include "src/header.c"
void h_parse(void) { L = nondet_size_t(); Z = nondet_size_t(); __CPROVER_assume(L < (1ul << 28) && Z < (1ul << 40) && Z > 2 * L + 2); C = malloc(L + 1); E = malloc(Z); static wss_header_t header_; static const wss_header_t none_; static wss_config_t config_; static wss_subprotocol_t proto_; wss_config_t any_; config_ = any_; header_ = none_; h_h = &header_; h_c = &config_; h_p = &proto_; __CPROVER_assume(C && E); C[L] = 0; h_h->content = C; h_h->length = L; h_pathlen = nondet_size_t();
  G.exn = G.sum = G.toklen = G.te = G.hi = G.hin = 0; G.tok = NULL; G.exlive = G.names = G.accs = G.asks = 0; G.m_ok = G.v_ok = G.m_no = G.v_no = 0;
#ifdef FEW
  for (int i = 0; i < 2; i++) { static wss_extension_t e_[2]; h_x[i] = &e_[i]; h_x[i]->open = i ? st_open1 : st_open0; X.opened[i] = 0; } X.nvalid = 0;
#endif
  enum HttpStatus_Code R = WSS_parse_header(nondet_int(), h_h, h_c);
  A_(R == HttpStatus_OK || (R >= 400 && R < 600), "the status is an HTTP status");
  A_(G.exlive == 0, "the list of extensions is released");
#ifdef FIELDS
  A_(h_h->content == C, "the request stays where it is");
  A_(KEEP(h_h->method) && KEEP(h_h->version) && KEEP(h_h->path) && KEEP(h_h->host) && KEEP(h_h->payload) && KEEP(h_h->cookies), "every field lies in the received bytes (1)");
  A_(KEEP(h_h->ws_upgrade) && KEEP(h_h->ws_connection) && KEEP(h_h->ws_origin) && KEEP(h_h->ws_key) && KEEP(h_h->ws_key1) && KEEP(h_h->ws_key2) && KEEP(h_h->ws_key3), "every field lies in the received bytes (2)");
#elif defined(FEW)
  A_(h_h->ws_extensions_count <= (unsigned)X.nvalid && X.nvalid <= (int)h_h->ws_extensions_count + (R == HttpStatus_InternalServerError), "the extensions that agreed are enabled, no other");
  for (unsigned i = 0; i < 2; i++) if (i < h_h->ws_extensions_count) { wss_ext_t *e = h_h->ws_extensions[i]; A_(e->ext == h_x[X.kind[i]] && e->accepted == X.acc[i] && VP_SAME(e->name, names_), "in the order they were offered, with the parameters they accepted"); A_(i == 0 || e->ext != h_h->ws_extensions[0]->ext, "each one once"); }
  A_(h_h->ws_extensions_count <= 2, "each one once"); A_(G.names == (int)h_h->ws_extensions_count, "the names are kept for the enabled extensions, the others are released");
#else
  A_(!(R == HttpStatus_OK) || (h_h->method != NULL && G.m_ok && h_h->version != NULL && G.v_ok && h_h->path != NULL && h_pathlen <= h_c->size_uri && G.sum <= h_c->size_header && h_h->payload != NULL && OFF(h_h->payload) == G.hi && G.hin <= h_c->size_payload), "a request is accepted only if method, version, target, header size and payload are as allowed");
  A_(!(R == HttpStatus_MethodNotAllowed) || (G.m_no), "a method is refused only if it is not in the list");
  A_(!(R == HttpStatus_HTTPVersionNotSupported) || (G.v_no), "a version is refused only if it is not in the list");
  A_(!(R == HttpStatus_URITooLong) || (h_pathlen > h_c->size_uri), "a target is refused only if it is too long");
  A_(!(R == HttpStatus_RequestHeaderFieldsTooLarge) || (G.sum > h_c->size_header), "header lines are refused only if they are too long");
  A_(!(R == HttpStatus_PayloadTooLarge) || (G.hin > h_c->size_payload), "a payload is refused only if it is too long");
#endif
  REACH; }
#endif
#ifdef TRIM
char *C; size_t L, h_o; static _Bool sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
#undef isspace
#define isspace(c) sp(c)
size_t vp_strlen(const char *s) { A_(VP_SAME(s, C) && OFF(s) <= L, "a string"); size_t n = nondet_size_t(); __CPROVER_assume(n <= L - OFF(s) && s[n] == 0); return n; }
#define strlen(x) (__builtin_constant_p(*(x)) ? sizeof(x) : vp_strlen(x))
void *vp_memmove(void *d, const void *s, size_t n) { A_(n == 0 || (__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n) && OFF(d) + n <= L), "moves inside the string"); __CPROVER_havoc_slice(d, n); return d; }
#define memmove vp_memmove
int strinarray(const char *n, const char **hay, size_t size) { return -1; } unsigned char *b64_decode_ex(const char *s, size_t n, size_t *d) { return NULL; } wss_subprotocol_t *WSS_find_subprotocol(char *n) { return NULL; } wss_extension_t *WSS_find_extension(char *n) { return NULL; } void WSS_free(void **p) {} void *WSS_malloc(size_t n) { return NULL; } void *WSS_realloc(void **p, size_t o, size_t n) { return NULL; } void *WSS_copy(void *p, size_t n) { return NULL; }
static inline char *trim(char *str)
__CPROVER_requires(str == NULL || (str == C + h_o && h_o <= L && C[L] == 0)) __CPROVER_assigns(str != NULL : __CPROVER_object_whole(C))
__CPROVER_ensures(__CPROVER_return_value == str) __CPROVER_ensures(C[L] == 0)
;
#include "src/header.c"
void h_trim(void) { L = nondet_size_t(); h_o = nondet_size_t(); __CPROVER_assume(L < (1ul << 28) && h_o <= L); C = malloc(L + 1); __CPROVER_assume(C); C[L] = 0; trim(nondet_bool() ? C + h_o : NULL); REACH; }
#endif
