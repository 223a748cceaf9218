/* P09: the policy of src/header.c over strings whose properties are arbitrary; P10: see header_parse.c */
#include "mem.h"
#include <stdio.h>
#include <strings.h>
#include <ctype.h>
#include <regex.h>
#include "header.h"
#include "alloc.h"
#include "b64.h"
#include "str.h"
#include "log.h"
#undef memcpy
#undef strlen
#define REACH __CPROVER_assert(0, "VP_REACH")
#define A_(c, t) __CPROVER_assert(c, t)
#define log_log(...) ((void)0)
void *WSS_malloc(size_t n) { if (n == 0 || nondet_bool()) return NULL; void *p = calloc(1, n); __CPROVER_assume(p != NULL); return p; }
#ifdef UPGRADE
struct { int keys, regs; } G;
/* what is true of the request; decided once, the code may ask in any way it likes */
_Bool b_http, b_https, b_host, b_origin, b_up, b_conn, b_dec; int h_re; size_t h_klen, h_dlen; wss_header_t *h_h; wss_config_t *h_c; regex_t *h_r; char *h_hosts[1], *h_origs[1];
static char tok[8]; static unsigned char *h_key;
static _Bool eqs(const char *f, const char *g) { size_t i = 0; while (f[i] != 0 && f[i] == g[i]) i++; return f[i] == g[i]; }
static size_t lit(const char *g) { size_t i = 0; while (g[i] != 0) i++; return i; }
int vp_path_is(const char *s, const char *l, size_t n) {
  A_(s == &tok[0] && n == lit(l) && (eqs(l, "http://") || eqs(l, "https://")), "the path is compared with a scheme, whole");
  _Bool is = n == 7 ? b_http : b_https; if (is) return 0; int r = nondet_int(); __CPROVER_assume(r != 0); return r; }
size_t vp_strlen(const char *s) { A_(s == h_h->ws_key, "a string whose length is known"); return h_klen; }
int strinarray(const char *n, const char **hay, size_t size) {
  if (hay == (const char **)h_hosts) { A_(n == h_h->host && size == h_c->hosts_length, "the host is looked up in the list of hosts"); return n != NULL && b_host ? 0 : -1; }
  A_(hay == (const char **)h_origs && n == h_h->ws_origin && size == h_c->origins_length, "the origin is looked up in the list of origins"); return n != NULL && b_origin ? 0 : -1; }
int vp_regexec(const regex_t *re, const char *s, size_t m, regmatch_t *p, int f) { A_(re == h_r && s == h_h->path && f == 0, "the expression is matched with the path"); G.regs++; return h_re; }
unsigned char *b64_decode_ex(const char *s, size_t n, size_t *d) { A_(s == h_h->ws_key && n == h_klen, "the key is decoded, whole"); if (!b_dec) return NULL; *d = h_dlen; G.keys++; return h_key; }
void WSS_free(void **p) { if (*p == NULL) return; A_(*p == (void *)h_key && G.keys > 0, "releases the decoded key, once"); G.keys--; *p = NULL; }
#define regexec vp_regexec
#define regerror(...) 0
#define strncasecmp(a, b, n) (__builtin_constant_p(*(a)) ? vp_path_is(b, a, n) : vp_path_is(a, b, n))
#define strlen(x) (__builtin_constant_p(*(x)) ? lit(x) : vp_strlen(x))
static bool has_token(const char *list, const char *token)
__CPROVER_requires((list == h_h->ws_upgrade && eqs(token, "websocket")) || (list == h_h->ws_connection && eqs(token, "Upgrade"))) __CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == (list == h_h->ws_upgrade ? b_up : b_conn))
;
#define TYPE_OK (h_h->ws_type == RFC6455 || h_h->ws_type == HYBI10 || h_h->ws_type == HYBI07)
#define KEY_OK (h_h->ws_key != NULL && b_dec && h_dlen == 16)
#define HOST_OK (h_c->hosts_length == 0 || (h_h->host != NULL && b_host))
#define ORIGIN_OK (h_c->origins_length == 0 || (h_h->ws_origin != NULL && b_origin))
#define PATH_OK (h_r == NULL || h_re == 0)
#define ASKS (!b_http && !b_https && h_h->ws_upgrade != NULL && b_up && h_h->ws_connection != NULL && b_conn)
#define R __CPROVER_return_value
enum HttpStatus_Code WSS_upgrade_header(wss_header_t *header, wss_config_t *config, regex_t *re)
__CPROVER_requires(header == h_h && config == h_c && re == h_r && G.keys == 0) __CPROVER_assigns(G)
__CPROVER_ensures(G.keys == 0)
__CPROVER_ensures((R == HttpStatus_SwitchingProtocols) == (PATH_OK && HOST_OK && ORIGIN_OK && ASKS && TYPE_OK && KEY_OK))
__CPROVER_ensures(R == HttpStatus_SwitchingProtocols || R == HttpStatus_UpgradeRequired || R == HttpStatus_NotFound || R == HttpStatus_InternalServerError || R == HttpStatus_BadRequest || R == HttpStatus_Forbidden || R == HttpStatus_NotImplemented)
__CPROVER_ensures(R == HttpStatus_UpgradeRequired ==> !ASKS || !KEY_OK)
__CPROVER_ensures(R == HttpStatus_NotFound ==> h_r != NULL && h_re == REG_NOMATCH)
__CPROVER_ensures(R == HttpStatus_InternalServerError ==> h_r != NULL && h_re != 0 && h_re != REG_NOMATCH)
__CPROVER_ensures(R == HttpStatus_BadRequest ==> !HOST_OK)
__CPROVER_ensures(R == HttpStatus_Forbidden ==> !ORIGIN_OK)
__CPROVER_ensures(R == HttpStatus_NotImplemented ==> !TYPE_OK)
;
#include "src/header.c"
static char *some(int i) { return nondet_bool() ? &tok[i] : NULL; }
void h_upgrade(void) { h_h = malloc(sizeof *h_h); h_c = malloc(sizeof *h_c); h_key = malloc(1); __CPROVER_assume(h_h && h_c && h_key); G.keys = G.regs = 0; b_http = nondet_bool(); b_https = nondet_bool(); b_host = nondet_bool(); b_origin = nondet_bool(); b_up = nondet_bool(); b_conn = nondet_bool(); b_dec = nondet_bool(); h_klen = nondet_size_t(); h_dlen = nondet_size_t(); regex_t re; h_r = nondet_bool() ? &re : NULL; h_h->path = &tok[0]; h_h->host = some(1); h_h->ws_upgrade = some(2); h_h->ws_connection = some(3); h_h->ws_origin = some(4); h_h->ws_key = some(5);
  h_c->hosts = h_hosts; h_c->origins = h_origs; h_re = nondet_int(); __CPROVER_assume(!(b_http && b_https)); __CPROVER_assume(h_c->hosts_length >= 0 && h_c->origins_length >= 0); unsigned t = nondet_unsigned(); __CPROVER_assume(t <= 13); h_h->ws_type = t; WSS_upgrade_header(h_h, h_c, h_r); REACH; }
#endif
#ifdef TOKEN
#ifndef LEN
#define LEN 12
#endif
void WSS_free(void **p) {} int strinarray(const char *n, const char **hay, size_t size) { return -1; } unsigned char *b64_decode_ex(const char *s, size_t n, size_t *d) { return NULL; }
static char lc(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; } static _Bool in_(char c, const char *s) { for (int i = 0; s[i]; i++) if (s[i] == c) return 1; return 0; }
size_t vp_strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && in_(s[n], a)) n++; return n; } size_t vp_strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !in_(s[n], a)) n++; return n; }
int vp_sncc(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { if (lc(a[i]) != lc(b[i])) return (unsigned char)lc(a[i]) - (unsigned char)lc(b[i]); if (!a[i]) return 0; } return 0; }
#define strspn vp_strspn
#define strcspn vp_strcspn
#define strncasecmp vp_sncc
static size_t vp_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
#define strlen vp_strlen
static _Bool has(const char *l, const char *t, size_t tn) { /* some element between commas is the token, apart from blanks around it and case */
  for (size_t a = 0; a <= LEN; a++) { if (!(a == 0 || l[a - 1] == ',')) { if (l[a] == 0) break; continue; } size_t p = a; while (l[p] == ' ' || l[p] == '\t') p++; size_t k = 0; while (k < tn && l[p + k] && lc(l[p + k]) == lc(t[k])) k++; if (k == tn) { p += tn; while (l[p] == ' ' || l[p] == '\t') p++; if (l[p] == 0 || l[p] == ',') return 1; } if (l[a] == 0) break; }
  return 0; }
#include "src/header.c"
void h_token(void) { char l[LEN + 1]; l[LEN] = 0; static const char t[] = TOKEN; A_(has_token(l, t) == has(l, t, sizeof t - 1), "a token is found exactly where it is an element of the list"); REACH; }
#endif
