/* RFC 6455 section 5.2: what the bytes of a frame mean. Used by the contracts and by the native replay oracle. */
#ifndef SPEC_FRAME_H
#define SPEC_FRAME_H
#include <stdint.h>
#include <stddef.h>
#define SPEC_NEED(b, avail) ((size_t)2 + ((avail) < 2 ? 0 : (((b)[1] & 0x7f) == 126 ? 2 : ((b)[1] & 0x7f) == 127 ? 8 : 0) + (((b)[1] & 0x80) ? 4 : 0)))
/* length of the header starting at b, of which avail bytes (>= 1) are present; > avail if it is cut short */
static inline size_t spec_hdr(const unsigned char *b, size_t avail) { return SPEC_NEED(b, avail); }
static inline uint64_t spec_plen(const unsigned char *b, size_t avail) { /* header complete */
  unsigned l = b[1] & 0x7f;
  if (l < 126) return l;
  if (l == 126) return ((uint64_t)b[2] << 8) | b[3];
  return ((uint64_t)b[2] << 56) | ((uint64_t)b[3] << 48) | ((uint64_t)b[4] << 40) | ((uint64_t)b[5] << 32) |
         ((uint64_t)b[6] << 24) | ((uint64_t)b[7] << 16) | ((uint64_t)b[8] << 8) | (uint64_t)b[9];
}
static inline int spec_complete(const unsigned char *b, size_t avail) {
  size_t h = spec_hdr(b, avail);
  return h <= avail && spec_plen(b, avail) <= avail - h;
}
/* serialised (server to client) form of a frame: header length and header bytes */
static inline size_t spec_enc_hdr(uint64_t plen) { return plen <= 125 ? 2 : plen <= 65535 ? 4 : 10; }
static inline unsigned char spec_enc_byte(size_t k, int fin, int r1, int r2, int r3, unsigned op, uint64_t plen) { /* k < spec_enc_hdr(plen) */
  if (k == 0) return (unsigned char)((fin ? 0x80 : 0) | (r1 ? 0x40 : 0) | (r2 ? 0x20 : 0) | (r3 ? 0x10 : 0) | (op & 0xf));
  if (k == 1) return plen <= 125 ? (unsigned char)plen : plen <= 65535 ? 126 : 127;
  if (plen <= 65535) return (unsigned char)(plen >> (8 * (3 - k)));
  return (unsigned char)(plen >> (8 * (9 - k)));
}
#endif
