/* RFC 4648 base64 */
#include <stddef.h>
#include <stdint.h>
static inline unsigned char b64_char(unsigned v) { return v < 26 ? 'A' + v : v < 52 ? 'a' + (v - 26) : v < 62 ? '0' + (v - 52) : v == 62 ? '+' : '/'; }
static inline int b64_is(unsigned char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '+' || c == '/'; }
static inline unsigned b64_val(unsigned char c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : 63; }
/* character r (0..3) of the group that encodes the n (1..3) bytes a, b, c */
static inline unsigned char b64_enc(unsigned r, size_t n, unsigned char a, unsigned char b, unsigned char c) {
  if (n < 2) b = 0; if (n < 3) c = 0;
  return r == 0 ? b64_char(a >> 2) : r == 1 ? b64_char((a & 3) << 4 | b >> 4) : r == 2 ? (n < 2 ? '=' : b64_char((b & 15) << 2 | c >> 6)) : n < 3 ? '=' : b64_char(c & 63);
}
/* byte r (0..2) of the group of four characters with values a, b, c, d */
static inline unsigned char b64_dec(unsigned r, unsigned a, unsigned b, unsigned c, unsigned d) { return r == 0 ? a << 2 | b >> 4 : r == 1 ? b << 4 | c >> 2 : c << 6 | d; }
