/* P08, P11 replay: whole requests are received over a socket that splits them anywhere; the answer on the wire is parsed by an independent reader and, for an upgrade, the accept
 * value is computed again by the SHA-1 and base64 below. Case: seed bytes for the request, then the plan of the reads and writes. */
#define _GNU_SOURCE
#define W_OWN_FIND
#include "world.h"
#include <ctype.h>
static uint8_t *b_; static size_t bn_, bp_; static unsigned nx(void) { return bp_ < bn_ ? b_[bp_++] : 0; }
static uint32_t rol(uint32_t x, int k) { return x << k | x >> (32 - k); }
static void ref_sha1(const uint8_t *d, size_t n, uint8_t out[20]) {
  uint32_t h[5] = { 0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0 }; size_t m = (n + 8) / 64 * 64 + 64; uint8_t *p = calloc(1, m); memcpy(p, d, n); p[n] = 0x80; for (int i = 0; i < 8; i++) p[m - 1 - i] = (uint64_t)n * 8 >> (8 * i);
  for (size_t o = 0; o < m; o += 64) { uint32_t w[80], a = h[0], b = h[1], c = h[2], e = h[3], g = h[4]; for (int t = 0; t < 16; t++) w[t] = (uint32_t)p[o + 4 * t] << 24 | p[o + 4 * t + 1] << 16 | p[o + 4 * t + 2] << 8 | p[o + 4 * t + 3]; for (int t = 16; t < 80; t++) w[t] = rol(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
    for (int t = 0; t < 80; t++) { uint32_t f = t < 20 ? ((b & c) | (~b & e)) + 0x5A827999 : t < 40 ? (b ^ c ^ e) + 0x6ED9EBA1 : t < 60 ? ((b & c) | (b & e) | (c & e)) + 0x8F1BBCDC : (b ^ c ^ e) + 0xCA62C1D6; uint32_t x = rol(a, 5) + f + g + w[t]; g = e; e = c; c = rol(b, 30); b = a; a = x; }
    h[0] += a; h[1] += b; h[2] += c; h[3] += e; h[4] += g; }
  free(p); for (int i = 0; i < 20; i++) out[i] = h[i / 4] >> (24 - 8 * (i % 4)); }
static void ref_b64(const uint8_t *d, size_t n, char *o) { static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; for (size_t i = 0; i < n; i += 3) { uint32_t v = d[i] << 16 | (i + 1 < n ? d[i + 1] << 8 : 0) | (i + 2 < n ? d[i + 2] : 0); *o++ = t[v >> 18]; *o++ = t[v >> 12 & 63]; *o++ = i + 1 < n ? t[v >> 6 & 63] : '='; *o++ = i + 2 < n ? t[v & 63] : '='; } *o = 0; }
static char *dup_(const char *s) { char *p = WSS_malloc(strlen(s) + 1); strcpy(p, s); return p; }
static void onopen(int fd, char *param, char **accepted, bool *valid) { *valid = true; *accepted = NULL; if (param && param[0] == 97) { long keep = vp_fault_at; vp_fault_at = -1; *accepted = dup_(param); vp_fault_at = keep; } if (param && param[0] == 'n') *valid = false; }
static void onclose(int fd) {}
static wss_extension_t X[3] = { { .name = "x-one", .open = onopen, .close = onclose }, { .name = "x-two", .open = onopen, .close = onclose }, { .name = "permessage-three", .open = onopen, .close = onclose } };
wss_extension_t *WSS_find_extension(char *n) { for (int i = 0; i < 3; i++) if (!strcmp(n, X[i].name)) return &X[i]; return NULL; }
static wss_subprotocol_t W_long = { .name = "a-subprotocol-with-a-rather-long-name.example.org", .connect = w_connect, .message = w_message, .close = w_close };
wss_subprotocol_t *WSS_find_subprotocol(char *n) { return !strcmp(n, "echo") ? &W_echo : !strcmp(n, "chat") ? &W_chat : !strcmp(n, W_long.name) ? &W_long : NULL; }
static char rq[1 << 16]; static size_t rn; static void add(const char *f, ...) { va_list a; va_start(a, f); rn += vsnprintf(rq + rn, sizeof rq - rn, f, a); va_end(a); }
static const struct { int code; const char *reason; } R[] = { { 200, "OK" }, { 400, "Bad Request" }, { 403, "Forbidden" }, { 404, "Not Found" }, { 405, "Method Not Allowed" }, { 413, "Payload Too Large" }, { 414, "URI Too Long" }, { 426, "Upgrade Required" }, { 431, "Request Header Fields Too Large" }, { 500, "Internal Server Error" }, { 501, "Not Implemented" }, { 505, "HTTP Version Not Supported" } };
static char ico_path[64]; static uint8_t ico[8192]; static size_t ico_n;
static int vp_case(const uint8_t *in, size_t n) {
  w_reset(); long live = vp_live; b_ = (uint8_t *)in; bn_ = n; bp_ = 0; rn = 0; volatile int r = 0; char *volatile path = NULL; static char kb[4096], key[4096], proto[64], exts[4096]; proto[0] = exts[0] = key[0] = 0; int kind = (nx() & 127) % 12, vsn = 0;
  unsigned hosts = nx(); regex_t re; int have_re = 0; static char *okhost[] = { "good.example" }; if (hosts & 1) { W_cfg.hosts = okhost; W_cfg.hosts_length = 1; } if (hosts & 2) { static char *o[] = { "http://good.example" }; W_cfg.origins = o; W_cfg.origins_length = 1; } if (hosts & 4) { regcomp(&re, "^/ok", REG_EXTENDED); have_re = 1; W_srv.re = &re; }
  /* the favicon */
  ico_n = nx() * (hosts & 8 ? 31 : 1); if (hosts & 16) ico_n = hosts & 32 ? 10 : hosts & 64 ? 100 : 1000; if (ico_n > sizeof ico) ico_n = sizeof ico; vp_prng q = { hosts + 77 }; for (size_t i = 0; i < ico_n; i++) ico[i] = vp_byte(&q);
  int icok = nx() % 6; if (kind == 1) { if (!ico_path[0]) { char t[] = "/tmp/vp_icoXXXXXX"; int f = mkstemp(t); if (f >= 0) { ssize_t w = write(f, "", 0); (void)w; fclose(fdopen(f, "w")); } strcpy(ico_path, t); } FILE *f = fopen(ico_path, "wb"); if (f) { fwrite(ico, 1, ico_n, f); fclose(f); } W_cfg.favicon = icok == 0 ? NULL : icok == 1 ? "/nonexistent/vp.ico" : ico_path; }
  unsigned pl = nx() * (nx() % 4 == 0 ? 3 : 1) % 300; static const char *ver[] = { "HTTP/1.1", "HTTP/1.0", "HTTP/0.9", "HTTP/2.0", "HTTP/1.10", "XTTP/1.1", "h" };
  vsn = kind == 2 ? nx() % 7 : 0; path = kind == 1 ? "/favicon.ico" : "/ok"; add("%s %s", kind == 3 ? "BREW" : "GET", path); if (kind == 4) for (unsigned i = 0; i < pl; i++) add("x"); add(" %s\r\n", ver[vsn]);
  if (kind != 5) add("Host: %s\r\n", hosts & 1 && kind == 6 ? "evil.example" : "good.example"); add("Origin: %s\r\n", hosts & 2 && kind == 7 ? "http://evil.example" : "http://good.example");
  if (kind != 8) { add("Upgrade: websocket\r\nConnection: Upgrade\r\n"); }
  static const int vv[] = { 13, 8, 7 }; add("Sec-WebSocket-Version: %d\r\n", kind == 9 ? 3 : vv[nx() % 3]);
  for (int i = 0; i < 16; i++) kb[i] = nx(); ref_b64((uint8_t *)kb, kind == 10 ? nx() % 60 : 16, key); if (kind != 10) { unsigned km = nx() % 8, kp = nx() % 20; if (km == 1) key[22] = 0; if (km == 2 || km == 3) { memmove(key + kp + 2, key + kp + 1, strlen(key + kp + 1) + 1); key[kp + 1] = "\t -_"[nx() % 4]; } if (km == 3 || km == 4) strcat(key, "=="); }  add("Sec-WebSocket-Key: %s\r\n", key);
  unsigned ps = nx(); const char *pn = ps % 4 == 1 ? "chat" : ps % 4 == 2 ? W_long.name : "echo"; if (ps % 4) { add("Sec-WebSocket-Protocol: %s%s\r\n", ps & 8 ? "nobody, " : "", pn); strcpy(proto, pn); }
  unsigned ex = nx() % 6; int offered[3] = { 0 }; if (ex && ex < 5) { add("Sec-WebSocket-Extensions: "); for (unsigned i = 0; i < ex; i++) { unsigned w = nx() % 4, p = nx() % 6, al = nx() % 40; char par[96] = ""; if (p >= 2) { strcpy(par, p == 5 ? "no" : "a"); for (unsigned k = 0; k < al; k++) strcat(par, "z"); }
      const char *nm = w < 3 ? X[w].name : "x-unknown"; add("%s%s%s%s", i ? ", " : "", nm, par[0] ? ";" : "", par); if (w < 3 && !offered[w] && p != 5) { offered[w] = 1; if (exts[0]) strcat(exts, ","); strcat(exts, nm); if (par[0]) { strcat(exts, ";"); strcat(exts, par); } } } add("\r\n"); }
  if (kind == 11) { unsigned k = nx() * 20; add("X-Pad: "); for (unsigned i = 0; i < k && rn < 9000; i++) add("p"); add("\r\n"); } add("\r\n");
  W_plan = in + bp_; W_plan_len = n - bp_ < 200 ? n - bp_ : 200; static uint8_t plan[256]; size_t pn_ = 0; for (size_t i = 0; i < W_plan_len; i++) { uint8_t c = W_plan[i]; plan[pn_++] = c > 250 ? 0 : c; } W_plan = plan; W_plan_len = pn_; /* a request arrives whole, in pieces */
  if (setjmp(W_stuck)) { r = vp_fail("%s", W_why); return r; }
  W_cfg.size_header = 1024; W_cfg.size_uri = 256; W_cfg.size_payload = 1024; wss_session_t *s = w_session(W_BASE, 0); W[0].in = (uint8_t *)rq; W[0].in_len = rn;
  unsigned ft = in[0] & 128 ? in[n - 1] % 48 : 255; vp_faulted = 0; if (ft != 255) vp_fault_at = ft;
  for (int i = 0; i < 4 && !W[0].closed && (i == 0 || W[0].poll_write); i++) w_work(W_BASE, i ? WRITING : READING);
  vp_fault_at = -1; s = WSS_session_find(W_BASE); const char *o = (char *)W[0].out; size_t on = W[0].out_len, k = 0; if (!on) { if (!vp_faulted) r = vp_fail("no answer to a request"); goto out; }
  /* status line */
  { const char *e = memmem(o, on, "\r\n", 2), *he = memmem(o, on, "\r\n\r\n", 4); if (!e || !he) { r = vp_fail("the answer has no complete head: %.60s", o); goto out; } const char *v = ver[vsn]; size_t vl = strlen(v); int dflt = !strncmp(o, "HTTP/1.1 ", 9); if (!dflt && (strncmp(o, v, vl) || o[vl] != ' ')) { r = vp_fail("the status line begins with %.20s", o); goto out; } if (dflt) vl = 8;
    int code = 0; const char *p = o + vl + 1; for (int i = 0; i < 3; i++) { if (!isdigit((unsigned char)p[i])) { r = vp_fail("no status code: %.40s", o); goto out; } code = code * 10 + p[i] - '0'; } p += 3; if (*p++ != ' ') { r = vp_fail("no reason"); goto out; }
    size_t bodyn = on - (he + 4 - o); long cl = -1; int up = 0, con = 0, versions = 0; char acc[64] = "", gp[128] = "", ge[4096] = ""; int seen = 0;
    char reason[64]; snprintf(reason, sizeof reason, "%.*s", (int)(e - p), p); const char *want = code == 101 ? "Switching Protocols" : NULL; for (unsigned i = 0; i < sizeof R / sizeof *R; i++) if (R[i].code == code) want = R[i].reason; if (!want || strcmp(want, reason)) { r = vp_fail("status %d with reason %s", code, reason); goto out; }
    for (const char *l = e + 2; l < he + 2; ) { const char *le = memmem(l, he + 2 - l, "\r\n", 2); if (!le) break; char ln[5000]; snprintf(ln, sizeof ln, "%.*s", (int)(le - l), l); if (memchr(l, 0, le - l) || memchr(l, '\n', le - l)) { r = vp_fail("a stray byte in the head"); goto out; } char *c = strchr(ln, ':'); if (!c || c == ln || c[1] != ' ') { r = vp_fail("a line of the head is not a header line: %s", ln); goto out; } *c = 0; char *val = c + 2;
      for (char *x = ln; *x; x++) if (!isalnum((unsigned char)*x) && *x != '-') { r = vp_fail("a header name with other characters: %s", ln); goto out; }
      if (!strcasecmp(ln, "Content-Length")) { if (cl >= 0) { r = vp_fail("two content lengths"); goto out; } char *q2; cl = strtol(val, &q2, 10); if (*q2 || q2 == val) { r = vp_fail("content length is %s", val); goto out; } }
      if (!strcasecmp(ln, "Upgrade") && !strcasecmp(val, "websocket")) up++; if (!strcasecmp(ln, "Connection") && !strcasecmp(val, "upgrade")) con++; if (!strcasecmp(ln, "Sec-WebSocket-Version")) { versions++; if (code == 501 && strcmp(val, "13, 8, 7")) { r = vp_fail("versions %s are announced", val); goto out; } }
      if (!strcasecmp(ln, "Sec-WebSocket-Accept")) { seen++; snprintf(acc, sizeof acc, "%s", val); } if (!strcasecmp(ln, "Sec-WebSocket-Protocol")) { if (gp[0]) seen += 9; snprintf(gp, sizeof gp, "%s", val); } if (!strcasecmp(ln, "Sec-WebSocket-Extensions")) { if (ge[0]) seen += 9; snprintf(ge, sizeof ge, "%s", val); if (!val[0]) { r = vp_fail("an empty list of extensions"); goto out; } }
      l = le + 2; }
    if (code == 101) { static char full[4200]; snprintf(full, sizeof full, "%s258EAFA5-E914-47DA-95CA-C5AB0DC85B11", key); uint8_t h[20]; char ref[40]; ref_sha1((uint8_t *)full, strlen(full), h); ref_b64(h, 20, ref);
      if (seen != 1 || strcmp(acc, ref)) { r = vp_fail("accept value is %s, not %s, for key %s", acc, ref, key); goto out; } if (!up || !con) { r = vp_fail("an upgrade without upgrade and connection lines"); goto out; }
      if (strcmp(gp, proto) && !vp_faulted) { r = vp_fail("the answer names subprotocol '%s', negotiated was '%s'", gp, proto); goto out; } if (strcmp(ge, exts) && !vp_faulted) { r = vp_fail("the answer names extensions '%s', negotiated were '%s'", ge, exts); goto out; }
      if (bodyn || cl >= 0) { r = vp_fail("%zu bytes follow the head of an upgrade", bodyn); goto out; } if (!s || !s->handshaked) { r = vp_fail("the upgrade is answered but the session is not a websocket session"); goto out; } }
    else { if (acc[0] || gp[0] || ge[0]) { r = vp_fail("a refusal negotiates"); goto out; } if (cl < 0 || (size_t)cl != bodyn) { r = vp_fail("the answer %d announces %ld bytes and %zu follow", code, cl, bodyn); goto out; } if (s && s->handshaked) { r = vp_fail("a refused request became a websocket session"); goto out; }
      if ((code == 501 || code == 426) != versions) { r = vp_fail("supported versions are announced %d times with status %d", versions, code); goto out; } if (code == 426 && (!up || !con)) { r = vp_fail("426 without upgrade lines"); goto out; }
      const char *body = he + 4; if (code == 200) { if (icok < 2 || !ico_n || bodyn != ico_n || memcmp(body, ico, ico_n)) { r = vp_fail("the favicon that is sent is not the file"); goto out; } uint8_t h[20]; char hex[41]; ref_sha1(ico, ico_n, h); for (int i = 0; i < 20; i++) sprintf(hex + 2 * i, "%02x", h[i]); char et[64]; snprintf(et, sizeof et, "\r\nEtag: %s\r\n", hex); char *found = strcasestr((char *)memcpy(calloc(1, he - o + 5), o, he - o + 4), et); if (!found) { r = vp_fail("the etag is not the hash of the file"); goto out; } }
      else { if (kind == 1 && icok >= 2 && ico_n && !vp_faulted) { r = vp_fail("the favicon is not served but answered with %d", code); goto out; } if (memchr(body, 0, bodyn)) { r = vp_fail("a null byte in the body"); goto out; } if (code != 426) { char t[64]; snprintf(t, sizeof t, "%d %s", code, want); if (bodyn < 7 || memcmp(body + bodyn - 7, "</html>", 7) || !memmem(body, bodyn, t, strlen(t))) { r = vp_fail("the page for %d is incomplete", code); goto out; } } } } }
out:
  if (have_re) regfree(&re); W_srv.re = NULL; W_cfg.hosts_length = W_cfg.origins_length = 0; s = WSS_session_find(W_BASE); (void)k;
  if (r) { return r; } if (s) { W[0].closed = 0; while (s->jobs > 0) WSS_session_jobs_dec(s); WSS_session_delete(s); } if (vp_live != live) r = vp_fail("%ld blocks are left when the session is deleted", vp_live - live);
  return r; }
static size_t vp_gen(uint8_t *o, uint64_t k) { size_t n = 60 + vp_below(60); for (size_t i = 0; i < n; i++) o[i] = vp_rnd(); o[0] = (k % 16 < 12 ? k % 16 : 0) | (k % 7 < 3 ? 128 : 0); if (k % 3 == 0 && o[0] == 0) o[1] = 0; if (k % 2) for (size_t i = 40; i < n; i++) o[i] = o[i] % 5 ? 0 : o[i]; return n; }
__attribute__((destructor)) static void gone(void) { if (ico_path[0]) unlink(ico_path); }
