/* P09, P10, P21 replay: requests built from parts whose meaning is known (every limit at its exact boundary, every condition broken alone and with others), and requests
 * cut, doubled and overwritten anywhere; the real parser and the real policy against what the parts say. Case: choices. */
#define _GNU_SOURCE
#define VP_FAULTS
#include "vp.h"
#include <ctype.h>
#include <strings.h>
#include "header.h"
#include "alloc.h"
void log_log(int level, const char *file, int line, const char *fmt, ...) {}
static const uint8_t *b_; static size_t bn_, bp_; static unsigned nx(void) { return bp_ < bn_ ? b_[bp_++] : 0; }
static char *dup_(const char *s) { long keep = vp_fault_at; vp_fault_at = -1; char *p = WSS_malloc(strlen(s) + 1); vp_fault_at = keep; strcpy(p, s); return p; }
static int nopen; static char opened[64][128];
#define OPEN(i) static void open##i(int fd, char *param, char **accepted, bool *valid) { if (nopen < 64) snprintf(opened[nopen++], 128, "%d:%d:%s", fd, i, param ? param : "-"); *valid = !(param && param[0] == 'n'); if (param && param[0] == 'a') *accepted = dup_(param); else if (*valid) *accepted = NULL; }
OPEN(0) OPEN(1) OPEN(2)
static wss_extension_t X[3] = { { .name = "x-one", .open = open0 }, { .name = "x-two", .open = open1 }, { .name = "permessage-three", .open = open2 } };
wss_extension_t *WSS_find_extension(char *n) { for (int i = 0; i < 3; i++) if (!strcmp(n, X[i].name)) return &X[i]; return NULL; }
static wss_subprotocol_t P[3] = { { .name = "echo" }, { .name = "chat" }, { .name = "a.long-name" } };
wss_subprotocol_t *WSS_find_subprotocol(char *n) { for (int i = 0; i < 3; i++) if (!strcmp(n, P[i].name)) return &P[i]; return NULL; }
static char rq[1 << 16]; static size_t rn; static void add(const char *f, ...) { va_list a; va_start(a, f); if (rn < sizeof rq - 4096) rn += vsnprintf(rq + rn, sizeof rq - rn, f, a); va_end(a); }
static void b64(const uint8_t *d, size_t n, char *o) { static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; for (size_t i = 0; i < n; i += 3) { uint32_t v = d[i] << 16 | (i + 1 < n ? d[i + 1] << 8 : 0) | (i + 2 < n ? d[i + 2] : 0); *o++ = t[v >> 18]; *o++ = t[v >> 12 & 63]; *o++ = i + 1 < n ? t[v >> 6 & 63] : '='; *o++ = i + 2 < n ? t[v & 63] : '='; } *o = 0; }
static const char *sp(void) { static const char *s[] = { " ", "", "  ", "\t", " \t ", " ", " ", " " }; return s[nx() % 8]; }
static const char *tr(void) { static const char *s[] = { "", "", "", " ", "\t", "  " }; return s[nx() % 6]; }
static int hs; /* bytes of header lines without their line ends */
static void line(const char *f, ...) { char l[8192]; va_list a; va_start(a, f); int n = vsnprintf(l, sizeof l, f, a); va_end(a); hs += n; add("%s\r\n", l); }
static void cased(char *o, const char *s, unsigned m) { for (; *s; s++, o++) *o = m % 4 == 1 ? tolower((unsigned char)*s) : m % 4 == 2 ? toupper((unsigned char)*s) : *s; *o = 0; }
static int vp_case(const uint8_t *in, size_t n) {
  b_ = in; bn_ = n; bp_ = 0; rn = 0; hs = 0; nopen = 0; long live = vp_live; vp_fault_at = -1; vp_faulted = 0; int r = 0;
  wss_config_t c; memset(&c, 0, sizeof c); c.size_header = 600 + nx(); c.size_uri = 20 + nx() % 40; c.size_payload = nx() % 60;
  static char *hosts[] = { "good.example", "localhost:8080" }, *orig[] = { "http://good.example" }; unsigned cf = nx(); if (cf & 1) { c.hosts = hosts; c.hosts_length = 2; } if (cf & 2) { c.origins = orig; c.origins_length = 1; } regex_t re; int hre = 0; if (cf & 4) { regcomp(&re, "^/ok/?$", REG_EXTENDED | REG_NOSUB); hre = 1; }
  int parse = 200, up = 101; /* what is expected */
#define P_(x) do { if (parse == 200) parse = (x); } while (0)
#define U_(x) do { if (up == 101) up = (x); } while (0)
  unsigned bad = nx(); /* which part is broken */ int bk = bad < 160 ? bad % 24 : 0;
  static const char *meth[] = { "POST", "GE", "GETT", "get", "OPTIONS" }; const char *m = bk == 1 ? meth[nx() % 5] : "GET"; if (bk == 1) P_(405);
  char path[600]; strcpy(path, "/ok"); int ulen = -1; if (bk == 2) { static const char *p[] = { "/other", "/okk", "x", "ftp://a/ok", "http://good.example/ok", "https://good.example/ok", "ws://good.example/ok", "WSS://good.example/ok", "w", "http:/x", "HTTPS://g/" }; unsigned w = nx() % 11; strcpy(path, p[w]); if (w == 2 || w == 3 || w == 8 || w == 9) { P_(strlen(path) > c.size_uri ? 414 : 400); } else if (strlen(path) > c.size_uri) P_(414); else if (w == 4 || w == 5 || w == 10) U_(426); else if (cf & 4) U_(404); }
  if (bk == 3) { ulen = c.size_uri + (int)(nx() % 3) - 1; path[0] = '/'; for (int i = 1; i < ulen; i++) path[i] = 'u'; path[ulen] = 0; if (ulen > (int)c.size_uri) P_(414); else if (cf & 4) U_(404); }
  if (bk == 4) { add("%s %s\r\n", m, path); P_(400); } else { static const char *v[] = { "HTTP/1.0", "HTTP/2.0", "HTTP/1.11", "HTTP/1.", "http/1.1" }; const char *vs = bk == 5 ? v[nx() % 5] : "HTTP/1.1"; if (bk == 5) P_(505); add("%s%s%s%s%s\r\n", m, " ", path, " ", vs); }
  /* header lines in a rotated order */
  int have_host = 0, have_orig = 0; char name[64], val[512], host[128] = "", origin[128] = ""; const wss_subprotocol_t *proto = NULL; int want_ext[64][2], nwant = 0; static char want_par[64][128]; char key[400] = ""; char cookie[40] = ""; int vmax = 0;
  static char names_[16]; unsigned rot = nx() % 9; int used[3] = { 0 };
  for (unsigned li = 0; li < 9; li++) switch ((li + rot) % 9) {
    case 0: if (bk == 6) { if (cf & 1) U_(400); break; } have_host = 1; strcpy(host, bk == 7 ? nx() & 1 ? "good.example2" : "good.exampl" : nx() & 1 ? hosts[1] : hosts[0]); if (bk == 7 && (cf & 1)) U_(400); cased(name, "Host", nx()); { const char *a = sp(), *b = tr(); line("%s:%s%s%s", name, a, host, b); } break;
    case 1: if (bk == 8) { if (cf & 2) { if (up == 101) up = 403; } break; } have_orig = 1; { static const char *ev[] = { "http://evil.example", "null", "file://", "*", "http://good.exampl", "http://good.example2", "https://good.example" }; strcpy(origin, bk == 9 ? ev[nx() % 7] : orig[0]); } cased(name, nx() & 1 ? "Origin" : "Sec-WebSocket-Origin", nx()); { const char *a = sp(), *b = tr(); line("%s:%s%s%s", name, a, origin, b); } break;
    case 2: { static const char *v[] = { "websocket", "WebSocket", "WEBSOCKET", "websocket, foo", "foo, websocket", "foo ,websocket ,bar" }, *w[] = { "websock", "websocketx", "", "web socket", "foo,websocket2", "xwebsocket" }; if (bk == 10 && nx() & 1) break; const char *u = bk == 10 ? w[nx() % 6] : v[nx() % 6]; cased(name, "Upgrade", nx()); { const char *a = sp(), *b = tr(); line("%s:%s%s%s", name, a, u, b); } } break;
    case 3: { static const char *v[] = { "Upgrade", "upgrade", "keep-alive, Upgrade", "Upgrade, keep-alive", "keep-alive ,  UPGRADE\t,x" }, *w[] = { "keep-alive", "Upgraded", "", "up grade", "close, Upgrade2", "xUpgrade" }; if (bk == 11 && nx() & 1) break; const char *u = bk == 11 ? w[nx() % 6] : v[nx() % 5]; cased(name, "Connection", nx()); { const char *a = sp(), *b = tr(); line("%s:%s%s%s", name, a, u, b); } } break;
    case 4: { if (bk == 12) { if (nx() & 1) { static const int bv[] = { 1, 4, 5, 6, 9, 12, 14, 0 }; line("Sec-WebSocket-Version:%s%d", sp(), bv[nx() % 8]); } break; } static const char *v[] = { "13", "8", "7", "13, 8, 7", "7,8", "4 , 13", "99, 7", "13,", ",8" }; static const int mx[] = { 13, 8, 7, 13, 8, 13, 7, 13, 8 }; unsigned w = nx() % 9; vmax = mx[w]; cased(name, "Sec-WebSocket-Version", nx()); { const char *a = sp(), *b = tr(); line("%s:%s%s%s", name, a, v[w], b); } if (bk == 22) { P_(-1); line("Sec-WebSocket-Version: 13"); } } break;
    case 5: { if (bk == 13 && nx() & 1) break; uint8_t k[300]; int kl = 16; if (bk == 13) { do kl = nx() % 40; while (kl == 16); } for (int i = 0; i < kl; i++) k[i] = nx(); b64(k, kl, key); if (bk == 14) key[nx() % 22] = "*- .,_\x80\x7f"[nx() % 8]; cased(name, "Sec-WebSocket-Key", nx()); { const char *a = sp(), *b = tr(); line("%s:%s%s%s", name, a, key, b); } if (bk == 15) { P_(-1); line("Sec-WebSocket-Key: %s", key); } } break;
    case 6: { unsigned k = nx() % 5; if (!k) break; char l[512] = ""; for (unsigned i = 0; i < k; i++) { unsigned w = nx() % 5; const char *q = w < 3 ? P[w].name : w == 3 ? "unknown" : "ech"; if (!proto && w < 3) proto = &P[w]; strcat(l, q); if (i + 1 < k) { strcat(l, nx() & 1 ? ", " : ","); } } { const char *a = sp(), *b = tr(); line("Sec-WebSocket-Protocol:%s%s%s", a, l, b); if (nx() % 8 == 0) { unsigned w = nx() % 3; if (!proto) proto = &P[w]; line("Sec-WebSocket-Protocol: %s", P[w].name); } } } break;
    case 7: { unsigned k = nx() % 6, lines = nx() % 3; if (!k) break; char l[2048] = ""; for (unsigned i = 0; i < k; i++) { unsigned w = nx() % 5, pw = nx() % 5; char par[128] = ""; if (pw == 2) strcpy(par, "n"); if (pw >= 3) strcpy(par, "a=1; b"); if (pw == 4) for (unsigned z = nx() % 50; z; z--) strcat(par, "y"); const char *e = w < 3 ? X[w].name : w == 3 ? "unknown" : "x-on";
          strcat(l, e); if (par[0] || pw == 1) strcat(l, nx() & 1 ? "; " : ";"); strcat(l, par); if (w < 3 && !used[w] && pw != 2) { used[w] = 1; want_ext[nwant][0] = w; strcpy(want_par[nwant++], pw >= 3 ? par : ""); }
          if (i + 1 < k) { if (lines && nx() % 3 == 0) { line("Sec-WebSocket-Extensions:%s%s%s", sp(), l, ""); l[0] = 0; if (lines == 2) line("X-Between: x"); } else strcat(l, nx() & 1 ? ", " : nx() & 1 ? ",," : ","); } }
        const char *a = sp(), *b = tr(); line("Sec-WebSocket-Extensions:%s%s%s", a, l, b); } break;
    case 8: { unsigned k = nx() % 4; if (k == 1) { strcpy(cookie, "a=b; c=d"); line("Cookie:%s%s", sp(), cookie); } if (k == 2) line("X-Other: a:b:c"); if (k == 3) line("no colon at all"); } break; }
  if (bk == 16 || hs > (int)c.size_header) { if (bk == 16) { int want = (int)c.size_header + (int)(nx() % 3) - 1; if (want - hs > 5) { int k = want - hs - 3; char l[2048]; memset(l, 'p', sizeof l); if (k < 2000) { l[k] = 0; line("X: %s", l); } } } }
  int pay = 0; if (hs > (int)c.size_header) { P_(431); }
  if (bk == 17) { P_(400); } else if (bk == 18) { add("\n\n"); P_(-2); } else if (bk == 19) { rq[rn - 1] = 'x'; P_(-3); add("\r\n"); } else add("\r\n");
  if (bk == 20 || nx() % 4 == 0) { pay = bk == 20 ? (int)c.size_payload + (int)(nx() % 3) - 1 : (int)(nx() % (c.size_payload + 1)); if (bk == 17) pay = 0; if (pay < 0) pay = 0; for (int i = 0; i < pay; i++) add("d"); if (pay > (int)c.size_payload) P_(413); }
  if (bk == 21) { /* nothing else is wrong */ }
  /* conditions of the policy in the order the reasons are checked */
  if (up == 101 && (bk == 10 || bk == 11)) up = 426; if (up == 101 && (bk == 8 || bk == 9) && (cf & 2)) up = 403; if (up == 101 && bk == 12) up = 501; if (up == 101 && (bk == 13 || bk == 14)) up = 426;
  int mess = 0; if (bad >= 160) { mess = 1; unsigned k = 1 + nx() % 5; while (k--) { if (!rn) break; unsigned o = nx() << 8 | nx(), w = nx() % 6, x = nx(); size_t at = o % rn; static const char junk[] = "\r\n\0:,;= \tA"; if (w < 3) rq[at] = w == 2 ? (char)x : junk[x % 10]; else if (w == 3) rn = at; else { size_t len = x % 40; if (at + len > rn) len = rn - at; if (w == 4) { memmove(rq + at, rq + at + len, rn - at - len); rn -= len; } else if (rn + len < sizeof rq) { memmove(rq + at + len, rq + at, rn - at); rn += len; } } } }
  int ft = bad % 7 == 3 ? (int)(nx() % 24) : -1;
  wss_header_t *h = WSS_malloc(sizeof *h); h->content = malloc(1); free(h->content); h->content = WSS_malloc(rn + 1); memcpy(h->content, rq, rn); h->content[rn] = 0; h->length = rn; char *lo = h->content, *hi = lo + rn;
  vp_fault_at = ft; vp_faulted = 0; int code = WSS_parse_header(77, h, &c); vp_fault_at = -1;
  if (!vp_faulted && !mess) { if (parse == 200 && code != 200) r = vp_fail("a well-formed request is refused with %d", code); else if (parse > 0 && code != parse) r = vp_fail("the answer to the request is %d, expected is %d", code, parse); else if (parse < 0 && code < 400) r = vp_fail("a malformed request is accepted (%d)", -parse); }
  if (code != 200 && (code < 400 || code > 599)) r = r ? r : vp_fail("status %d", code);
  char *f[] = { h->method, h->version, h->path, h->host, h->payload, h->cookies, h->ws_upgrade, h->ws_connection, h->ws_origin, h->ws_key, h->ws_key1, h->ws_key2, h->ws_key3 };
  for (unsigned i = 0; i < sizeof f / sizeof *f && !r; i++) if (f[i] && (f[i] < lo || f[i] > hi)) r = vp_fail("field %u is not taken from the request", i); else if (f[i]) { volatile size_t l = strlen(f[i]); (void)l; }
  if (!r && code == 200) { if (!h->method || strcmp(h->method, "GET") || !h->version || strcmp(h->version, "HTTP/1.1") || !h->path || strlen(h->path) > c.size_uri) r = vp_fail("accepted with method, version or path that must be refused"); if (!r && h->payload && strlen(h->payload) > c.size_payload) r = vp_fail("a payload over the limit is accepted"); }
  for (unsigned i = 0; i < h->ws_extensions_count && !r; i++) { if (!h->ws_extensions || !h->ws_extensions[i] || !h->ws_extensions[i]->ext || !h->ws_extensions[i]->name || strcmp(h->ws_extensions[i]->name, h->ws_extensions[i]->ext->name)) r = vp_fail("extension %u of the request is not a loaded one", i); for (unsigned j = 0; j < i && !r; j++) if (h->ws_extensions[i]->ext == h->ws_extensions[j]->ext) r = vp_fail("an extension is enabled twice"); }
  if (!r && !vp_faulted && !mess && code == 200) {
    if (strcmp(h->path, path)) r = vp_fail("path is %s", h->path); else if (have_host ? !h->host || strcmp(h->host, host) : h->host != NULL) r = vp_fail("host is '%s', sent was '%s'", h->host ? h->host : "(none)", host); else if (have_orig ? !h->ws_origin || strcmp(h->ws_origin, origin) : h->ws_origin != NULL) r = vp_fail("origin is '%s', sent was '%s'", h->ws_origin ? h->ws_origin : "(none)", origin);
    else if (cookie[0] && (!h->cookies || strcmp(h->cookies, cookie))) r = vp_fail("cookies are '%s'", h->cookies ? h->cookies : "(none)"); else if ((int)strlen(h->payload) != pay) r = vp_fail("payload has %zu bytes, sent were %d", strlen(h->payload), pay);
    else if (h->ws_protocol != proto) r = vp_fail("subprotocol is %s, offered first and loaded is %s", h->ws_protocol ? h->ws_protocol->name : "none", proto ? proto->name : "none"); else if (vmax && h->ws_version != vmax) r = vp_fail("version is %d, highest offered is %d", h->ws_version, vmax);
    else if ((int)h->ws_extensions_count != nwant) r = vp_fail("%u extensions are enabled, agreed on are %d", h->ws_extensions_count, nwant);
    for (int i = 0; i < nwant && !r; i++) { if (h->ws_extensions[i]->ext != &X[want_ext[i][0]]) r = vp_fail("extension %d is %s", i, h->ws_extensions[i]->name); else if (want_par[i][0] ? !h->ws_extensions[i]->accepted || strcmp(h->ws_extensions[i]->accepted, want_par[i]) : h->ws_extensions[i]->accepted != NULL) r = vp_fail("extension %d accepted '%s', the answer names '%s'", i, want_par[i], h->ws_extensions[i]->accepted ? h->ws_extensions[i]->accepted : "nothing"); } }
  if (!r && code == 200) { int u = WSS_upgrade_header(h, &c, hre ? &re : NULL); if (!mess && !vp_faulted && u != up) r = vp_fail("the request is answered with %d, expected is %d", u, up);
    if (!r && u == 101 && mess) { /* necessary conditions of an upgrade */ if (!h->ws_key || strlen(h->ws_key) < 22 || !h->ws_upgrade || !strcasestr(h->ws_upgrade, "websocket") || !h->ws_connection || !strcasestr(h->ws_connection, "upgrade") || (h->ws_version != 13 && h->ws_version != 8 && h->ws_version != 7)) r = vp_fail("an invalid request is upgraded"); if ((cf & 1) && (!h->host || (strcmp(h->host, hosts[0]) && strcmp(h->host, hosts[1])))) r = vp_fail("a request for another host is upgraded"); if ((cf & 2) && (!h->ws_origin || strcmp(h->ws_origin, orig[0]))) r = vp_fail("a request of another origin is upgraded"); if (hre && regexec(&re, h->path, 0, NULL, 0)) r = vp_fail("a request for another path is upgraded"); } 
    if (!r && u != 101 && u < 400) r = vp_fail("status %d", u); }
  WSS_free_header(h); if (hre) regfree(&re); if (!r && vp_live != live) r = vp_fail("%ld blocks leak", vp_live - live); (void)names_;
  if (r) { size_t l = strlen(vp_why); snprintf(vp_why + l, sizeof vp_why - l, " | part %d, request: %.600s", bk, rq); }
  return r; }
static size_t vp_gen(uint8_t *o, uint64_t k) { size_t n = 40 + vp_below(140); for (size_t i = 0; i < n; i++) o[i] = vp_rnd(); o[4] = k % 3 == 0 ? 160 + vp_below(96) : k / 3 % 24; return n; }
