/* P02-P05 replay: encoding, round trip, fragmentation, control frames on concrete values. PROP selects the property. */
#include "vp.h"
#include "frame.h"
#include "config.h"
#include "../contracts/spec_frame.h"
void vp_free(void *p);
static void freef(wss_frame_t *f) { if (f) { if (f->payload) vp_free(f->payload); vp_free(f); } }
static wss_frame_t *mk(const uint8_t *d) { /* 8 bytes: flags, opcode, len3, ext, seed, - */
  if (d[0] == 0xff) return NULL;
  wss_frame_t *f = vp_calloc(1, sizeof *f); size_t len = d[2] | d[3] << 8 | (size_t)(d[4] & 1) << 16;
  f->fin = d[0] & 1; f->rsv1 = d[0] >> 1 & 1; f->rsv2 = d[0] >> 2 & 1; f->rsv3 = d[0] >> 3 & 1; f->opcode = d[1] & 15;
  f->payloadLength = len; f->extensionDataLength = d[5] ? (d[5] == 255 ? len : d[5] % (len + 1)) : 0; f->applicationDataLength = len - f->extensionDataLength;
  f->payload = len ? vp_malloc(len) : NULL; vp_prng r = { d[6] + 77 }; for (size_t i = 0; i < len; i++) f->payload[i] = vp_byte(&r);
  return f;
}
static int chk(const uint8_t *m, wss_frame_t *f) {
  size_t h = spec_enc_hdr(f->payloadLength);
  for (size_t k = 0; k < h; k++) if (m[k] != spec_enc_byte(k, f->fin, f->rsv1, f->rsv2, f->rsv3, f->opcode, f->payloadLength))
    return vp_fail("header byte %zu of frame with %llu payload bytes is %02x, expected %02x", k, (unsigned long long)f->payloadLength, m[k], spec_enc_byte(k, f->fin, f->rsv1, f->rsv2, f->rsv3, f->opcode, f->payloadLength));
  for (size_t k = 0; k < f->payloadLength; k++) if (m[h + k] != (uint8_t)f->payload[k]) return vp_fail("payload byte %zu of %llu is %02x, expected %02x", k, (unsigned long long)f->payloadLength, m[h + k], (uint8_t)f->payload[k]);
  return 0;
}
static int utf8_cut_ok(const char *s, size_t cut) { return (s[cut] & 0xC0) != 0x80; }
#if PROP == 2
static int vp_case(const uint8_t *in, size_t n) {
  if (n < 10) return 0;
  size_t cnt = (n - 2) / 8; int fault = in[0]; wss_frame_t *fs[64]; if (cnt > 60) cnt = 60;
  int r = 0, anynull = 0; size_t tot = 0;
  for (size_t i = 0; i < cnt; i++) { fs[i] = mk(in + 2 + 8 * i); if (!fs[i]) anynull = 1; else tot += spec_enc_hdr(fs[i]->payloadLength) + fs[i]->payloadLength; }
  long live = vp_live; char *m = (char *)1; size_t len;
  vp_faulted = 0; vp_fault_at = fault ? fault - 1 : -1;
  if (in[1] & 1) { cnt = cnt ? 1 : 0; tot = fs[0] ? spec_enc_hdr(fs[0]->payloadLength) + fs[0]->payloadLength : 0; anynull = !fs[0]; len = WSS_stringify_frame(fs[0], &m); }
  else len = WSS_stringify_frames(fs, cnt, &m);
  vp_fault_at = -1;
  if (vp_faulted || anynull) {
    if (len != 0 || m != NULL) r = vp_fail("%s: returned %zu bytes", vp_faulted ? "allocation failed" : "missing frame", len);
    else if (vp_live != live) r = vp_fail("%ld blocks leaked after a failure", vp_live - live);
  } else if (len != tot) r = vp_fail("returned length %zu, expected %zu", len, tot);
  else {
    size_t o = 0; for (size_t i = 0; i < cnt && !r; i++) { r = chk((uint8_t *)m + o, fs[i]); o += spec_enc_hdr(fs[i]->payloadLength) + fs[i]->payloadLength; }
    if (m) vp_free(m);
    if (!r && vp_live != live) r = vp_fail("%ld blocks leaked", vp_live - live);
  }
  for (size_t i = 0; i < ((n - 2) / 8 > 60 ? 60 : (n - 2) / 8); i++) freef(fs[i]);
  return r;
}
#elif PROP == 3
static int vp_case(const uint8_t *in, size_t n) {
  if (n < 10) return 0;
  size_t cnt = (n - 2) / 8; wss_frame_t *fs[64]; if (cnt > 60) cnt = 60; int r = 0; uint8_t d[8];
  for (size_t i = 0; i < cnt; i++) { memcpy(d, in + 2 + 8 * i, 8); d[0] &= 15; d[5] = 0; fs[i] = mk(d); }
  char *m = NULL; size_t len = WSS_stringify_frames(fs, cnt, &m), off = 0;
  for (size_t i = 0; i < cnt && !r; i++) {
    if (off >= len) { r = vp_fail("only %zu of %zu frames found in %zu encoded bytes", i, cnt, len); break; }
    wss_frame_t *g = WSS_parse_frame(m, len, &off);
    if (!g || off > len) r = vp_fail("frame %zu of %zu (%llu payload bytes) not recovered", i, cnt, (unsigned long long)fs[i]->payloadLength);
    else if (g->fin != fs[i]->fin || g->rsv1 != fs[i]->rsv1 || g->rsv2 != fs[i]->rsv2 || g->rsv3 != fs[i]->rsv3 || g->opcode != fs[i]->opcode || g->mask) r = vp_fail("flags of frame %zu changed", i);
    else if (g->payloadLength != fs[i]->payloadLength || g->applicationDataLength != g->payloadLength || (g->payloadLength && memcmp(g->payload, fs[i]->payload, g->payloadLength))) r = vp_fail("payload of frame %zu (%llu bytes) changed", i, (unsigned long long)fs[i]->payloadLength);
    freef(g);
  }
  if (!r && off != len) r = vp_fail("%zu bytes left over after decoding", len - off);
  if (m) vp_free(m);
  for (size_t i = 0; i < cnt; i++) freef(fs[i]);
  return r;
}
#elif PROP == 4
/* [op][fault][sf:4][seed][kind] [len:3] */
static int vp_case(const uint8_t *in, size_t n) {
  if (n < 11) return 0;
  wss_config_t c; memset(&c, 0, sizeof c); unsigned sf = in[2] | in[3] << 8 | in[4] << 16 | (unsigned)in[5] << 24; if (!sf) sf = 1; c.size_frame = sf;
  size_t len = in[8] | in[9] << 8 | (size_t)in[10] << 16; int op = in[0] & 15, r = 0; vp_prng p = { in[6] }; 
  if (op != 8 && len / sf > 4000) len = (size_t)sf * 4000;
  char *msg = malloc(len ? len : 1); for (size_t i = 0; i < len; i++) { msg[i] = vp_byte(&p); if (op == 8 && i >= 2 && !msg[i]) msg[i] = 'x'; }
  if (op == 8 && (in[7] & 1) && len > 2) for (size_t i = 2, j = 0; i < len; i++, j++) msg[i] = j % 3 == 0 ? 0xe2 : j % 3 == 1 ? 0x82 : 0xac; /* euro signs */
  char *copy = malloc(len ? len : 1); memcpy(copy, msg, len);
  wss_frame_t **fs = (void *)1; long live = vp_live; vp_faulted = 0; vp_fault_at = in[1] ? in[1] - 1 : -1;
  char *arg = len == 0 && (in[7] & 2) ? NULL : len == 0 ? "" : msg;
  size_t cnt = WSS_create_frames(&c, op, arg, len, &fs);
  vp_fault_at = -1;
  if (memcmp(copy, msg, len)) r = vp_fail("the message was modified");
  else if (vp_faulted) { if (cnt || fs) r = vp_fail("allocation failed but %zu frames were returned", cnt); else if (vp_live != live) r = vp_fail("%ld blocks leaked after an allocation failure", vp_live - live); }
  else if (op == 8) {
    if (cnt != 1 || !fs || !fs[0]) r = vp_fail("close message gave %zu frames", cnt);
    else {
      wss_frame_t *f = fs[0]; uint64_t pl = f->payloadLength; unsigned code = len >= 2 ? (uint8_t)msg[0] << 8 | (uint8_t)msg[1] : len == 1 ? 1002 : 1000;
      if (!f->fin || f->opcode != 8 || f->mask || f->rsv1 || f->rsv2 || f->rsv3 || f->extensionDataLength || f->applicationDataLength != pl) r = vp_fail("close frame flags");
      else if (pl < 2 || pl > 125) r = vp_fail("close frame with %llu payload bytes", (unsigned long long)pl);
      else if (((uint8_t)f->payload[0] << 8 | (uint8_t)f->payload[1]) != code) r = vp_fail("close code %u, expected %u", (uint8_t)f->payload[0] << 8 | (uint8_t)f->payload[1], code);
      else if (len >= 2 && (len <= 125 ? pl != len : pl > len || ((in[7] & 1) && pl < 122))) r = vp_fail("close payload of %llu bytes for a message of %zu", (unsigned long long)pl, len);
      else if (len >= 2 && memcmp(f->payload, msg, pl)) r = vp_fail("close payload differs from the message");
      else if (len > 125 && (in[7] & 1) && !utf8_cut_ok(msg, pl)) r = vp_fail("close reason cut inside a character");
      else if (len < 2 && arg && pl != 2) r = vp_fail("close without reason has %llu payload bytes", (unsigned long long)pl);
    }
  } else {
    size_t o = 0;
    if (!cnt || !fs) r = vp_fail("no frames for a message of %zu bytes", len);
    for (size_t i = 0; i < cnt && !r; i++) {
      wss_frame_t *f = fs[i];
      if (!f) r = vp_fail("frame %zu missing", i);
      else if (f->applicationDataLength != f->payloadLength || f->extensionDataLength || f->mask || f->rsv1 || f->rsv2 || f->rsv3) r = vp_fail("frame %zu: flags or lengths", i);
      else if (f->payloadLength > sf) r = vp_fail("frame %zu carries %llu bytes, configured size is %u", i, (unsigned long long)f->payloadLength, sf);
      else if (!f->payloadLength && len) r = vp_fail("frame %zu of %zu is empty (message %zu bytes, size %u)", i, cnt, len, sf);
      else if (f->fin != (i == cnt - 1)) r = vp_fail("frame %zu of %zu has fin %d", i, cnt, f->fin);
      else if (f->opcode != (i ? 0 : op)) r = vp_fail("frame %zu has opcode %d, message opcode %d", i, f->opcode, op);
      else if (o + f->payloadLength > len || (f->payloadLength && memcmp(f->payload, msg + o, f->payloadLength))) r = vp_fail("frame %zu does not carry the message's bytes at %zu", i, o);
      else o += f->payloadLength;
    }
    if (!r && o != len) r = vp_fail("frames carry %zu of %zu bytes", o, len);
  }
  if (!vp_faulted && fs && !r) { for (size_t i = 0; i < cnt; i++) freef(fs[i]); vp_free(fs); if (vp_live != live) r = vp_fail("%ld blocks leaked", vp_live - live); }
  free(msg); free(copy); return r;
}
#elif PROP == 5
/* [kind][code:2][len:2][seed] or pong: [kind][frame descriptor 8] */
static int vp_case(const uint8_t *in, size_t n) {
  if (n < 9) return 0; int r = 0; long live = vp_live;
  if (in[0] % 4 < 2) {
    unsigned code = in[1] << 8 | in[2]; size_t len = in[3] | (in[4] & 3) << 8; char *s = NULL; vp_prng p = { in[5] };
    if (in[0] % 4) { s = malloc(len + 1); for (size_t i = 0; i < len; i++) { s[i] = in[6] & 1 ? "\xe2\x82\xac"[i % 3] : vp_byte(&p); if (!s[i]) s[i] = 1; } s[len] = 0; }
    vp_faulted = 0; vp_fault_at = in[7] % 4 == 1 ? 0 : in[7] % 4 == 2 ? 1 : -1;
    wss_frame_t *f = WSS_closing_frame(code, s); vp_fault_at = -1;
    int known = code >= 1000 && code <= 1015 && code != 1004;
    if (!f) { if (s ? !vp_faulted : known && !vp_faulted) r = vp_fail("no close frame for code %u", code); else if (vp_live != live) r = vp_fail("leak"); }
    else if (vp_faulted) r = vp_fail("close frame in spite of an allocation failure");
    else {
      uint64_t pl = f->payloadLength;
      if (!f->fin || f->opcode != 8 || f->mask || f->rsv1 || f->rsv2 || f->rsv3 || f->extensionDataLength || f->applicationDataLength != pl) r = vp_fail("close frame flags");
      else if (pl < 2 || pl > 125) r = vp_fail("close frame with %llu payload bytes (reason of %zu)", (unsigned long long)pl, len);
      else if (((uint8_t)f->payload[0] << 8 | (uint8_t)f->payload[1]) != code) r = vp_fail("close code %u, expected %u", (uint8_t)f->payload[0] << 8 | (uint8_t)f->payload[1], code);
      else if (s && (len <= 123 ? pl != len + 2 : pl < 122 - 0)) { if (in[6] & 1 || len <= 123) r = vp_fail("close reason of %zu bytes became %llu", len, (unsigned long long)pl - 2); }
      else if (s && memcmp(f->payload + 2, s, pl - 2)) r = vp_fail("close reason differs");
      else if (s && len > 123 && (in[6] & 1) && !utf8_cut_ok(s, pl - 2)) r = vp_fail("close reason cut inside a character");
      freef(f);
    }
    free(s);
  } else if (in[0] % 4 == 2) {
    vp_faulted = 0; vp_fault_at = in[7] % 8 == 1 ? 0 : in[7] % 8 == 2 ? 1 : -1;
    wss_frame_t *f = WSS_ping_frame(); vp_fault_at = -1;
    if (!f) { if (!vp_faulted) r = vp_fail("no ping frame"); }
    else if (!f->fin || f->opcode != 9 || f->mask || f->rsv1 || f->rsv2 || f->rsv3 || f->extensionDataLength || f->applicationDataLength != f->payloadLength || f->payloadLength > 125) r = vp_fail("ping frame: flags or %llu payload bytes", (unsigned long long)f->payloadLength);
    else { volatile char x = 0; for (size_t i = 0; i < f->payloadLength; i++) x ^= f->payload[i]; }
    freef(f);
  } else {
    uint8_t d[8]; memcpy(d, in + 1, 8); d[0] &= 15; d[3] = d[4] = 0; d[2] %= 126; wss_frame_t *f = mk(d), o; char pl[126]; f->mask = in[1] >> 4 & 1; for (int i = 0; i < 4; i++) f->maskingKey[i] = in[1 + i];
    memcpy(&o, f, sizeof o); memcpy(pl, f->payload ? f->payload : "", f->payloadLength);
    wss_frame_t *g = WSS_pong_frame(f);
    if (!g) r = vp_fail("no pong");
    else {
      if (!g->fin || g->opcode != 10 || g->mask || g->rsv1 || g->rsv2 || g->rsv3) r = vp_fail("pong flags fin=%d opcode=%d mask=%d rsv=%d%d%d", g->fin, g->opcode, g->mask, g->rsv1, g->rsv2, g->rsv3);
      else if (g->payloadLength != o.payloadLength || g->applicationDataLength + g->extensionDataLength != g->payloadLength || (o.payloadLength && memcmp(g->payload, pl, o.payloadLength))) r = vp_fail("pong payload differs from the ping's");
      freef(g);
    }
  }
  if (!r && vp_live != live) r = vp_fail("%ld blocks leaked", vp_live - live);
  return r;
}
#endif
#if PROP == 2 || PROP == 3
static size_t vp_gen(uint8_t *o, uint64_t k) {
  size_t cnt = k < 2000 ? 1 : vp_below(7); o[0] = vp_below(4) ? 0 : 1 + vp_below(12); o[1] = vp_rnd();
  if (k < 2000) o[0] = 0;
  for (size_t i = 0; i < cnt; i++) {
    uint8_t *d = o + 2 + 8 * i; for (int j = 0; j < 8; j++) d[j] = vp_rnd(); d[0] &= 15;
    size_t len = k < 600 ? k / 2 : k < 900 ? 65500 + (k - 600) / 3 : k < 1900 ? vp_below(300) : vp_below(2) ? vp_below(300) : vp_below(3) ? 120 + vp_below(12) : 65530 + vp_below(12);
    d[2] = len; d[3] = len >> 8; d[4] = len >> 16; if (vp_below(3)) d[5] = 0; if (PROP == 2 && !vp_below(40)) d[0] = 255;
  }
  return 2 + 8 * cnt;
}
#elif PROP == 4
static size_t vp_gen(uint8_t *o, uint64_t k) {
  static const unsigned ops[] = { 1, 2, 1, 2, 8, 8, 2, 1, 1, 2 };
  o[0] = ops[vp_below(10)]; o[1] = vp_below(4) ? 0 : 1 + vp_below(10); o[6] = vp_rnd(); o[7] = vp_rnd();
  uint64_t sf = vp_below(4) ? 1 + vp_below(70) : vp_below(2) ? 1 + vp_below(5000) : vp_below(2) ? 0xffffffffu : 1048576, len = vp_below(3) ? vp_below(200) : sf < 5000 ? sf * vp_below(8) + vp_below(3) : vp_below(3000);
  if (vp_below(2) && sf < 5000) { len = sf * vp_below(6) + vp_below(3); if (len) len -= vp_below(2); }
  if (k < 3000) { sf = 1 + k % 30; len = k / 30; o[0] = 1 + k % 2; o[1] = 0; } else if (k < 3400) { o[0] = 8; o[1] = 0; len = (k - 3000) / 2; }
  if (k % 1000 == 999) { sf = 65536; len = 65536 * vp_below(6) + vp_below(3); }
  for (int i = 0; i < 4; i++) o[2 + i] = sf >> 8 * i; for (int i = 0; i < 3; i++) o[8 + i] = len >> 8 * i;
  return 11;
}
#else
static size_t vp_gen(uint8_t *o, uint64_t k) {
  for (int i = 0; i < 9; i++) o[i] = vp_rnd();
  if (k < 1200) { unsigned c = 990 + k % 40; o[0] = k / 40 % 2; o[1] = c >> 8; o[2] = c; o[7] = 0; } else if (k < 2000) { size_t l = (k - 1200) / 2; o[0] = 1; o[3] = l; o[4] = l >> 8; o[6] = k; o[7] = 0; }
  if (vp_below(2)) { unsigned c = 1000 + vp_below(16); o[1] = c >> 8; o[2] = c; }
  return 9;
}
#endif
