/* P06 replay: utf8_check against the Unicode automaton on exactly allocated strings. */
#include "vp.h"
#include "../contracts/utf8_spec.h"
#include "utf8.h"
static int vp_case(const uint8_t *in, size_t n) {
  unsigned char s = U_OK; size_t bad = n;
  for (size_t i = 0; i < n; i++) { unsigned char t = u8_step(s, in[i]); if ((t == U_BAD || t == U_C0) && bad == n) bad = i; s = t; }
  uint8_t *c = malloc(n ? n : 1); memcpy(c, in, n);
  int r = 0; bool got = utf8_check((const char *)in, n);
  if (memcmp(c, in, n)) r = vp_fail("the text was modified");
  free(c);
  if (!r && got != (s == U_OK)) r = vp_fail("%zu bytes that are%s well-formed UTF-8 were %s (first violation at byte %zu)", n, s == U_OK ? "" : " not", got ? "accepted" : "rejected", bad);
  return r;
}
static size_t put(uint8_t *o, unsigned cp) {
  if (cp < 0x80) { o[0] = cp; return 1; } if (cp < 0x800) { o[0] = 0xC0 | cp >> 6; o[1] = 0x80 | (cp & 63); return 2; }
  if (cp < 0x10000) { o[0] = 0xE0 | cp >> 12; o[1] = 0x80 | (cp >> 6 & 63); o[2] = 0x80 | (cp & 63); return 3; }
  o[0] = 0xF0 | cp >> 18; o[1] = 0x80 | (cp >> 12 & 63); o[2] = 0x80 | (cp >> 6 & 63); o[3] = 0x80 | (cp & 63); return 4;
}
static const unsigned edge[] = { 0, 1, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff };
static const uint8_t bytes[] = { 0, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff };
static size_t fill(uint8_t *o, size_t upto, int kind) { /* well-formed text of exactly upto bytes */
  size_t n = 0; while (n < upto) { uint8_t t[4]; size_t l = put(t, kind ? edge[vp_below(20)] : 'a'); if (n + l <= upto) { memcpy(o + n, t, l); n += l; } else o[n++] = 'x'; } return n; }
static size_t vp_gen(uint8_t *o, uint64_t k) {
  if (k < 65536) { o[0] = k; o[1] = k >> 8; return 2; }
  k -= 65536;
  if (k < 256) { o[0] = k; return 1; }
  k -= 256;
  if (k < 71 * 625) { size_t off = k / 625, m = fill(o, off, 0); o[m++] = bytes[k % 25]; o[m++] = bytes[k / 25 % 25]; m += fill(o + m, k % 3 ? vp_below(40) : 0, 0); return m; }
  size_t pre = vp_below(4) ? vp_below(70) : 28 + vp_below(6), m = fill(o, pre, vp_below(2));
  switch (vp_below(4)) {
    case 0: { size_t l = 1 + vp_below(4); for (size_t i = 0; i < l; i++) o[m++] = bytes[vp_below(sizeof bytes)]; break; }
    case 1: { uint8_t t[4]; size_t l = put(t, edge[vp_below(20)]); if (vp_below(2) && l) l -= 1; memcpy(o + m, t, l); m += l; break; } /* maybe truncated */
    case 2: { uint8_t t[4]; size_t l = put(t, vp_below(0x11ffff)); t[vp_below(l)] ^= 1u << vp_below(8); memcpy(o + m, t, l); m += l; break; }
    default: break;
  }
  if (vp_below(3)) m += fill(o + m, vp_below(3) ? vp_below(70) : (32 - m % 32) % 32, vp_below(2));
  if (!vp_below(6)) m += fill(o + m, vp_below(5000), 1);
  return m;
}
