/* P01 replay: WSS_parse_frame on concrete bytes. Case: [off:1][filler bytes of a preceding region: off][frame bytes...] */
#include "vp.h"
#include "frame.h"
#include "../contracts/spec_frame.h"
static int vp_case(const uint8_t *in, size_t n) {
  if (n < 2) return 0;
  size_t off = in[0], length = n - 1; const uint8_t *p = in + 1;
  if (off >= length) off = 0;
  char *buf = malloc(length); memcpy(buf, p, length);
  size_t o = off, avail = length - off; const uint8_t *b = p + off;
  int complete = spec_complete(b, avail); size_t h = spec_hdr(b, avail);
  wss_frame_t *f = WSS_parse_frame(buf, length, &o);
  int r = 0;
  if (memcmp(buf, p, length)) r = vp_fail("input bytes were modified");
  if (!f) { r = vp_fail("no frame returned for %zu bytes", avail); goto out; }
  if (f->fin != !!(b[0] & 0x80) || f->rsv1 != !!(b[0] & 0x40) || f->rsv2 != !!(b[0] & 0x20) || f->rsv3 != !!(b[0] & 0x10) || f->opcode != (b[0] & 15))
    r = vp_fail("flags/opcode of first byte %02x decoded as fin=%d rsv=%d%d%d op=%d", b[0], f->fin, f->rsv1, f->rsv2, f->rsv3, f->opcode);
  if (!complete) {
    if (o <= length) r = vp_fail("incomplete frame (%zu bytes present) reported complete: offset %zu of %zu", avail, o, length);
    else if (f->payload) r = vp_fail("incomplete frame carries a payload");
  } else {
    uint64_t pl = spec_plen(b, avail);
    if (o != off + h + pl) r = vp_fail("offset %zu after frame, expected %zu", o, (size_t)(off + h + pl));
    else if (f->payloadLength != pl || f->applicationDataLength != pl || f->extensionDataLength) r = vp_fail("payload length %llu/%llu/%llu, expected %llu", (unsigned long long)f->payloadLength, (unsigned long long)f->applicationDataLength, (unsigned long long)f->extensionDataLength, (unsigned long long)pl);
    else if (f->mask != !!(b[1] & 0x80)) r = vp_fail("mask bit");
    else {
      if (f->mask && memcmp(f->maskingKey, b + h - 4, 4)) r = vp_fail("masking key");
      for (uint64_t k = 0; k < pl && !r; k++) {
        uint8_t e = b[h + k] ^ (f->mask ? b[h - 4 + k % 4] : 0);
        if ((uint8_t)f->payload[k] != e) r = vp_fail("payload byte %llu of %llu is %02x, expected %02x", (unsigned long long)k, (unsigned long long)pl, (uint8_t)f->payload[k], e);
      }
    }
  }
  WSS_free_frame(f);
out: free(buf); return r;
}
static size_t put(uint8_t *o, unsigned b0, int mask, uint64_t pl, int enc, size_t present) { /* present: payload bytes present */
  size_t k = 0; o[k++] = b0;
  if (enc == 0) o[k++] = (mask ? 0x80 : 0) | (pl & 0x7f);
  else if (enc == 1) { o[k++] = (mask ? 0x80 : 0) | 126; o[k++] = pl >> 8; o[k++] = pl; }
  else { o[k++] = (mask ? 0x80 : 0) | 127; for (int i = 7; i >= 0; i--) o[k++] = pl >> (8 * i); }
  if (mask) for (int i = 0; i < 4; i++) o[k++] = vp_rnd();
  for (size_t i = 0; i < present; i++) o[k++] = vp_rnd();
  return k;
}
static size_t vp_gen(uint8_t *out, uint64_t k) {
  static const uint64_t big[] = { 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, ~0ull - 1, ~0ull - 10, ~0ull - 12, ~0ull - 13, ~0ull - 14, ~0ull - 15, ~0ull - 16, ~0ull - 40, 0xffffffffull, 0x100000000ull, 0x10000000aull, 65536, 65535, 0x1000000ull };
  size_t off = vp_below(3) ? 0 : vp_below(40); unsigned b0 = vp_rnd() & 255; int mask = vp_below(4) != 0;
  out[0] = off; for (size_t i = 0; i < off; i++) out[1 + i] = vp_rnd(); uint8_t *o = out + 1 + off; size_t n;
  if (k < 4 * 300) { uint64_t pl = k / 4; n = put(o, b0, k & 1, pl, (k & 2) ? 2 : pl <= 125 ? 0 : 1, pl); }      /* every small length, both masks */
  else if (k < 4 * 300 + 2 * 300) { uint64_t j = k - 1200; n = put(o, b0, 1, j / 2, j & 1 ? 1 : 2, j / 2); }
  else if (k < 1800 + 200) { uint64_t j = k - 1800; uint64_t pl = 65500 + j; n = put(o, b0, j & 1, pl, pl > 65535 ? 2 : 1 + (j / 2 & 1), pl); }
  else switch (vp_below(6)) {
    case 0: { uint64_t pl = vp_below(2000); n = put(o, b0, mask, pl, pl <= 125 ? (int)vp_below(3) : 1 + (int)vp_below(2), pl); n += vp_below(2) ? vp_below(50) : 0; break; }
    case 1: { uint64_t pl = vp_below(400); n = put(o, b0, mask, pl, pl <= 125 ? (int)vp_below(3) : 1 + (int)vp_below(2), pl); n = vp_below(n) + 1; break; } /* truncated */
    case 2: { uint64_t pl = big[vp_below(sizeof big / 8)] - (vp_below(2) ? vp_below(40) : 0); n = put(o, b0, mask, pl, 2, vp_below(40)); break; }
    case 3: { n = 1 + vp_below(16); for (size_t i = 0; i < n; i++) o[i] = vp_rnd(); break; }
    case 4: { n = 1 + vp_below(16); for (size_t i = 0; i < n; i++) o[i] = vp_rnd(); if (n > 1) o[1] = 126 + vp_below(2) + 128 * vp_below(2); if (n > 9 && vp_below(2)) memset(o + 2, vp_below(2) ? 0 : 255, 7); break; }
    default: { uint64_t pl = vp_below(100000); n = put(o, b0, mask, pl, pl > 65535 ? 2 : 1 + (int)vp_below(2), pl); break; }
  }
  return 1 + off + n;
}
