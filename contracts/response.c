/* P08, P11: the responses of src/worker.c. Every piece that is written (sprintf, memcpy, single characters) must begin exactly where the previous one ended; the pieces are
 * followed through their format strings: where lines and the head end, what content length is announced, how many bytes follow the head. */
#include "mem.h"
#include <errno.h>
#include <time.h>
#include <sys/stat.h>
#include <stdio.h>
#include <math.h>
#include <locale.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <pthread.h>
#include "log.h"
#include "alloc.h"
#include "worker.h"
#include "session.h"
#include "header.h"
#include "httpstatuscodes.h"
#include "str.h"
#include "ssl.h"
#define REACH __CPROVER_assert(0, "VP_REACH")
#define A_(c, t) __CPROVER_assert(c, t)
#undef memcpy
typedef struct { int kind; long n; const char *s; } arg_t; /* kind 0 none, 1 number, 2 text */
static arg_t a_no(void) { arg_t a = { 0 }; return a; } static arg_t a_i(long n) { arg_t a = { 1, n }; return a; } static arg_t a_s(const char *s) { arg_t a = { 2, 0, s }; return a; }
/* the strings whose length is arbitrary */
enum { S_VER, S_REASON, S_EXP, S_DATE, S_MOD, S_ETAG, S_KEY, S_PROTO, S_N1, S_N2, S_N3, S_A1, S_A2, S_A3, S_N };
struct { size_t end, body0, l; int live, crlf, pieces, lines; long clen; _Bool eoh, colon, status, up, conn, server, acc, prot, ext, exts_end, ver; char *m; int in, nsep, seps; } G;
char *h_str[S_N]; size_t h_len[S_N]; int h_code, h_icon; char *h_acc, *h_ico; size_t h_k; wss_header_t *h_h; unsigned h_order;
static char tok[S_N], h_kb; /* tok[i] stands for a string of h_len[i] bytes that nobody reads */
size_t vp_strlen(const char *s) {
#define K_(i) if (s == h_str[i]) return h_len[i];
  K_(S_VER) K_(S_REASON) K_(S_EXP) K_(S_DATE) K_(S_MOD) K_(S_ETAG) K_(S_KEY) K_(S_PROTO) K_(S_N1) K_(S_N2) K_(S_N3) K_(S_A1) K_(S_A2) K_(S_A3)
  size_t n = 0; while (s[n] != 0) n++; return n; }
size_t vp_tlen(const char *s) { K_(S_VER) K_(S_REASON) K_(S_EXP) K_(S_DATE) K_(S_MOD) K_(S_ETAG) K_(S_KEY) K_(S_PROTO) K_(S_N1) K_(S_N2) K_(S_N3) K_(S_A1) K_(S_A2) K_(S_A3)
  static const char dv[] = "HTTP/1.1"; for (int i = 0; i < 9; i++) A_(s[i] == dv[i], "a string whose length is known"); return 8; }
static unsigned digits(long v) { return v < 10 ? 1 : v < 100 ? 2 : v < 1000 ? 3 : v < 10000 ? 4 : v < 100000 ? 5 : v < 1000000 ? 6 : v < 10000000 ? 7 : v < 100000000 ? 8 : v < 1000000000 ? 9 : 10; }
/* log10 of an integer lies between these two; what the callers do with it (truncation of a sum) is monotone */
double vp_log10(long x) { A_(x >= 1 && x < 2147483648, "the logarithm of a positive number"); double d = (double)(digits(x) - 1); return nondet_bool() ? d : d + (1.0 - 1.0 / 2147483648.0); }
static _Bool same(const char *f, const char *g) { size_t i = 0; while (f[i] != 0 && f[i] == g[i]) i++; return f[i] == g[i]; }
static _Bool begins(const char *f, const char *g) { size_t i = 0; while (g[i] != 0 && f[i] == g[i]) i++; return g[i] == 0; }
static void put(char *d, size_t n, _Bool nul) { /* n bytes are written at d, by sprintf also a null byte behind them */
  if (G.m == NULL) G.m = d;
  A_(VP_SAME(G.m, d) && __CPROVER_POINTER_OFFSET(d) == G.end, "a piece is written exactly where the one before it ends");
  A_(n + nul == 0 || __CPROVER_w_ok(d, n + nul), "a piece is written inside the message"); G.end += n; }
static size_t walk(const char *f, arg_t a, arg_t b, arg_t c, arg_t e, arg_t g, _Bool count) {
  size_t n = 0, k = 0, sum = 0, body0 = G.body0; int crlf = G.crlf, lines = G.lines; _Bool eoh = G.eoh, colon = G.colon; long clen = G.clen;
  for (size_t i = 0; f[i] != 0; i++) {
    if (f[i] == '%') { arg_t v = k == 0 ? a : k == 1 ? b : k == 2 ? c : k == 3 ? e : g; k++; i++; A_(v.kind == (f[i] == 'd' ? 1 : 2), "the arguments of a format are of the kind it names"); size_t w = v.kind == 1 ? digits(v.n) : vp_strlen(v.s);
      A_(v.kind == 2 || v.n >= 0, "a number that is written is not negative"); if (count && v.kind == 1 && i >= 17 && begins(f + i - 17, "Content-Length: %")) { A_(clen < 0 && !eoh, "one content length is announced"); clen = v.n; } sum += w; crlf = 0; continue; }
    n++; if (!count) continue;
    if (f[i] == ':' && !eoh) colon = 1;
    if (f[i] == '\r') crlf = crlf == 2 ? 3 : 1; else if (f[i] == '\n' && crlf == 1) { crlf = 2; if (!eoh) { A_(colon || lines == 0, "every line of the head but the first is a header line"); lines++; colon = 0; } }
    else if (f[i] == '\n' && crlf == 3) { crlf = 0; if (!eoh) { eoh = 1; body0 = G.end + n + sum; } } else crlf = 0; }
  if (count) { G.body0 = body0; G.crlf = crlf; G.lines = lines; G.eoh = eoh; G.colon = colon; G.clen = clen; }
  return n + sum; }
int vp_sprintf(char *d, const char *f, arg_t a, arg_t b, arg_t c, arg_t e, arg_t g) {
  if (G.pieces++ == 0) A_(same(f, "%s %d %s\r\n") && (h_h->version != NULL ? a.s == h_str[S_VER] : same(a.s, "HTTP/1.1")) && b.n == h_code && c.s == h_str[S_REASON], "the response begins with its status line: version, code and reason");
  
  if (begins(f, "Sec-Websocket-Extensions: ")) { A_(!G.ext, "once"); G.ext = 1; G.in = 1; } else if (begins(f, "Sec-Websocket-Protocol: ")) { A_(!G.prot, "once"); G.prot = 1; G.in = 2; } else if (begins(f, "Sec-Websocket-Accept: ")) { A_(!G.acc, "once"); G.acc = 1; G.in = 3; } else { G.in = 0; }
  if (begins(f, "Upgrade: websocket\r\nConnection: Upgrade\r\n")) G.up = 1; if (begins(f, "Sec-WebSocket-Version: ")) { A_(G.lines == 1 && a.n == 13 && b.n == 8 && c.n == 7, "the versions the server supports follow the status line"); G.ver = 1; }
  size_t n = walk(f, a, b, c, e, g, 1); put(d, n, 1); return n; }
int vp_snprintf(char *d, size_t m, const char *f, arg_t a, arg_t b, arg_t c, arg_t e, arg_t g) { A_(d == NULL || m == 0, "only the length is asked for"); return walk(f, a, b, c, e, g, 0); }
void *vp_memcpy_(void *d, const void *s, size_t n) {
  A_(n == 0 || __CPROVER_w_ok(d, n), "copies inside the object");
  if (G.m == NULL || !VP_SAME(G.m, d)) { size_t o = __CPROVER_POINTER_OFFSET(d); if (s == h_str[S_KEY]) { A_(n == h_len[S_KEY], "the key, whole"); if (h_k >= o && h_k - o < n) ((char *)d)[h_k - o] = h_kb; } else { A_(n == 36, "the GUID, whole"); if (h_k >= o && h_k - o < n) ((char *)d)[h_k - o] = ((const char *)s)[h_k - o]; } return d; } /* the key: the byte with the arbitrary index h_k */
#ifdef HANDSHAKE
  /* what is named: the extensions in order, each followed by ; and what it accepted, separated by commas; the subprotocol; the accept value */
  if (s == h_acc) { A_(G.in == 3 && G.acc && n == 28, "the accept value, whole"); G.in = 4; }
  else if (s == h_str[S_PROTO]) { A_(G.in == 2 && n == h_len[S_PROTO], "the name of the subprotocol, whole"); G.in = 4; }
  else { A_(G.in == 1, "extensions where they are announced"); int want = G.nsep / 2, acc = G.nsep & 1; size_t o = __CPROVER_POINTER_OFFSET(d);
    if (!acc) { A_(s == h_h->ws_extensions[want]->name && n == h_len[S_N1 + want], "the extensions are named in order"); if (want > 0) { A_(o == G.end + 1 && ((char *)d)[-1] == ',', "and separated by commas"); G.end++; } G.nsep += h_h->ws_extensions[want]->accepted != NULL ? 1 : 2; }
    else { A_(s == h_h->ws_extensions[want]->accepted && n == h_len[S_A1 + want], "with what they accepted"); A_(o == G.end + 1 && ((char *)d)[-1] == ';', "behind a semicolon"); G.end++; G.nsep++; } G.crlf = 0; }
#else
  A_(s == h_ico && n == h_icon && G.eoh, "the body is the file");
#endif
  G.crlf = 0; put(d, n, 0); return d; }
#define VA_(x) _Generic((x) + 0, char *: a_s, const char *: a_s, default: a_i)(x)
#define F0_(F, f) (F, f, a_no(), a_no(), a_no(), a_no(), a_no())
#define SP_(d, f, A, B, C, E, H, ...) vp_sprintf(d, f, A, B, C, E, H)
#define N_ a_no()
#define SEL_(_1, _2, _3, _4, _5, _6, _7, X, ...) X
#define sprintf(...) SEL_(__VA_ARGS__, SP7, SP6, SP5, SP4, SP3, SP2, SP1)(__VA_ARGS__)
#define SP2(d, f) vp_sprintf(d, f, N_, N_, N_, N_, N_)
#define SP3(d, f, a) vp_sprintf(d, f, VA_(a), N_, N_, N_, N_)
#define SP4(d, f, a, b) vp_sprintf(d, f, VA_(a), VA_(b), N_, N_, N_)
#define SP5(d, f, a, b, c) vp_sprintf(d, f, VA_(a), VA_(b), VA_(c), N_, N_)
#define SP6(d, f, a, b, c, e) vp_sprintf(d, f, VA_(a), VA_(b), VA_(c), VA_(e), N_)
#define SP7(d, f, a, b, c, e, g) vp_sprintf(d, f, VA_(a), VA_(b), VA_(c), VA_(e), VA_(g))
#define snprintf(d, n, f, a, b, c) vp_snprintf(d, n, f, VA_(a), VA_(b), VA_(c), N_, N_)
/* literals are measured; a variable is one of the strings above or the default version */
#define strlen(x) (__builtin_constant_p(*(x)) ? vp_strlen(x) : vp_tlen(x))
#define memcpy vp_memcpy_
#define log10(x) vp_log10((long)(x))
#define HttpStatus_reasonPhrase vp_reason
const char *vp_reason(int code) { A_(code == h_code, "the reason for the status"); return h_str[S_REASON]; }
size_t WSS_base64_encode_sha1(char *key, size_t n, char **acc) {
  A_(n == h_len[S_KEY] + 36 && __CPROVER_r_ok(key, n), "the accept value is made of the key of the client and the GUID"); if (h_k < n) A_(key[h_k] == (h_k < h_len[S_KEY] ? h_kb : "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"[h_k - h_len[S_KEY]]), "the key of the client followed by the GUID, byte by byte");
  if (nondet_bool()) { *acc = NULL; return 0; } *acc = h_acc = malloc(28); __CPROVER_assume(h_acc); G.live++; return 28; }
time_t vp_time(time_t *t) { return nondet_size_t() >> 8; } static struct tm the_tm; struct tm *vp_gmtime(const time_t *t) { return &the_tm; } char *vp_setlocale(int c, const char *l) { return "C"; } char *vp_strncpy(char *d, const char *s, size_t n) { return d; }
size_t vp_strftime(char *d, size_t m, const char *f, const struct tm *t) { if (!h_str[S_DATE]) { h_str[S_DATE] = d; h_len[S_DATE] = nondet_size_t(); __CPROVER_assume(h_len[S_DATE] < m); } else { A_(d != h_str[S_DATE], "the second date has its own place"); h_str[S_MOD] = d; h_len[S_MOD] = nondet_size_t(); __CPROVER_assume(h_len[S_MOD] < m); } return 1; }
#define time(t) vp_time(t)
#define gmtime vp_gmtime
#define setlocale vp_setlocale
#define strncpy vp_strncpy
#define strftime vp_strftime
int vp_access(const char *p, int m) { return nondet_bool() ? -1 : 0; }
#define access vp_access
int vp_stat(const char *p, struct stat *s) { return nondet_bool() ? -1 : 0; }
size_t strload(char *path, char **str) { size_t n = nondet_size_t(); __CPROVER_assume(n < (1ul << 24)); if (nondet_bool()) { *str = NULL; return 0; } *str = h_ico = malloc(n + 1); __CPROVER_assume(h_ico); G.live++; h_icon = n; return n; }
size_t WSS_sha1(char *key, size_t n, char **hash) { A_(key == h_ico && n == h_icon && __CPROVER_w_ok(*hash, 20), "hashes the file into an array"); return 20; }
char *bin2hex(const unsigned char *b, size_t n) { A_(n == 20 && __CPROVER_r_ok(b, n), "the hash");
#ifdef NOETAG
  return NULL;
#endif
  h_str[S_ETAG] = &tok[S_ETAG]; h_len[S_ETAG] = 40; G.live++; return h_str[S_ETAG]; }
void *vp_alloc(size_t n) { if (nondet_bool()) return NULL; A_(n > 0 && n < (1ul << 40), "a sensible size"); void *p = calloc(1, n); __CPROVER_assume(p != NULL); G.live++; return p; }
#undef WSS_malloc
#define WSS_malloc vp_alloc
#undef WSS_free
void WSS_free(void **p) { if (*p == NULL) return; A_(G.live > 0, "releases what it has"); G.live--; *p = NULL; }
#include "log.h"
#define log_log(...) ((void)0)
static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code code, char *exp)
__CPROVER_requires(G.live == 0 && G.end == 0) __CPROVER_assigns(G, __CPROVER_object_whole(h_str), __CPROVER_object_whole(h_len), the_tm)
__CPROVER_ensures(__CPROVER_return_value == NULL ? G.live == 0 : G.live == 2)
;
static wss_message_t *upgrade_response(wss_header_t *header, enum HttpStatus_Code code, char *exp)
__CPROVER_requires(G.live == 0 && G.end == 0) __CPROVER_assigns(G)
__CPROVER_ensures(__CPROVER_return_value == NULL ? G.live == 0 : G.live == 2)
;
static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Code code, wss_config_t *config)
__CPROVER_requires(G.live == 0 && G.end == 0) __CPROVER_assigns(G, __CPROVER_object_whole(h_str), __CPROVER_object_whole(h_len), the_tm, h_ico, h_icon)
__CPROVER_ensures(__CPROVER_return_value == NULL ? G.live == 0 : G.live == 2)
;
static wss_message_t *handshake_response(wss_header_t *header, enum HttpStatus_Code code)
__CPROVER_requires(G.live == 0 && G.end == 0) __CPROVER_assigns(G, h_acc)
__CPROVER_ensures(__CPROVER_return_value == NULL ? G.live == 0 : G.live == 2)
;
#define stat(p, s) vp_stat(p, s)
#include "src/worker.c"
#undef stat
static char *str_(int i, size_t max) { size_t n = nondet_size_t(); __CPROVER_assume(n < max); h_len[i] = n; h_str[i] = &tok[i]; return h_str[i]; }
static void begin(void) { for (int i = 0; i < S_N; i++) { h_str[i] = NULL; h_len[i] = 0; } G.end = G.body0 = 0; G.live = G.crlf = G.pieces = G.lines = G.in = G.nsep = 0; G.clen = -1; G.eoh = G.colon = G.up = G.acc = G.prot = G.ext = G.ver = 0; G.m = NULL; h_acc = h_ico = NULL;
  h_h = malloc(sizeof *h_h); __CPROVER_assume(h_h); 
#ifdef VERSION
  h_h->version = str_(S_VER, 1 << 16);
#else
  h_h->version = NULL;
#endif
   str_(S_REASON, 1 << 10); h_code = nondet_int(); __CPROVER_assume(h_code >= 100 && h_code < 600); }
static void finished(wss_message_t *m, _Bool body) { if (!m) return;
  A_(m->length == G.end, "the announced length is the number of bytes that were written"); A_(VP_SAME(m->msg, G.m) && __CPROVER_POINTER_OFFSET(m->msg) == 0, "the message is what was written"); A_(G.eoh, "the head ends with an empty line");
  if (body) A_(G.clen == (long)(G.end - G.body0), "the announced content length is the number of bytes behind the head"); else A_(G.body0 == G.end && G.clen < 0, "nothing follows the head"); }
#ifdef HTTP
void h_http(void) { begin(); str_(S_EXP, 1 << 20); wss_message_t *m = http_response(h_h, h_code, h_str[S_EXP]); finished(m, 1); if (m) A_(G.ver == (h_code == 501), "the supported versions are named exactly when the version is not implemented"); REACH; }
void h_upgrade(void) { begin(); str_(S_EXP, 1 << 20); __CPROVER_assume(h_len[S_EXP] > 0); finished(upgrade_response(h_h, h_code, h_str[S_EXP]), 1); REACH; }
void h_favicon(void) { begin(); wss_config_t *c = malloc(sizeof *c); __CPROVER_assume(c); char f[4]; c->favicon = nondet_bool() ? f : NULL; finished(favicon_response(h_h, h_code, c), 1); REACH; }
#endif
#ifdef HANDSHAKE
#ifndef NEXT
#define NEXT 3
#endif
#ifndef ACC /* which of the extensions have accepted something */
#define ACC 0
#endif
void h_handshake(void) { begin(); h_code = 101; h_h->ws_key = str_(S_KEY, 1 << 12); h_k = nondet_size_t(); wss_subprotocol_t *p = malloc(sizeof *p); __CPROVER_assume(p); p->name = str_(S_PROTO, 1 << 16); h_h->ws_protocol = nondet_bool() ? p : NULL;
  wss_ext_t *e[3]; unsigned n = NEXT; for (int i = 0; i < NEXT; i++) { e[i] = malloc(sizeof *e[i]); __CPROVER_assume(e[i]); e[i]->name = str_(S_N1 + i, 1 << 16); e[i]->accepted = (ACC >> i & 1) ? str_(S_A1 + i, 1 << 16) : NULL; }
  h_h->ws_extensions = n > 0 ? e : NULL; h_h->ws_extensions_count = n;
  wss_message_t *m = handshake_response(h_h, 101); finished(m, 0);
  if (m) A_(G.acc && G.up && G.prot == (h_h->ws_protocol != NULL) && G.ext == (h_h->ws_extensions != NULL) && G.nsep == 2 * h_h->ws_extensions_count, "what was negotiated is named, all of it and nothing else");
  REACH; }
#endif
