/* P07 replay: base64 on concrete byte strings and texts. */
#include "vp.h"
#include "b64.h"
#include "../contracts/b64_spec.h"
void vp_free(void *p);
static size_t spec_enc(const uint8_t *s, size_t n, char *o) { size_t m = 0; for (size_t q = 0; q < n; q += 3) for (unsigned r = 0; r < 4; r++) o[m++] = b64_enc(r, n - q > 3 ? 3 : n - q, s[q], q + 1 < n ? s[q + 1] : 0, q + 2 < n ? s[q + 2] : 0); return m; }
/* [op][fault] bytes */
static int vp_case(const uint8_t *in, size_t n) {
  if (n < 2) return 0;
  size_t len = n - 2; uint8_t *s = malloc(len ? len : 1); memcpy(s, in + 2, len);
  int r = 0; long live = vp_live; vp_faulted = 0; long fault = in[1] ? in[1] - 1 : -1;
  if (in[0] & 1) { /* decode an arbitrary text */
    size_t c = 0; while (c < len && b64_is(s[c])) c++;
    size_t want = 3 * (c / 4) + (c % 4 ? c % 4 - 1 : 0), got = 12345; vp_fault_at = fault;
    unsigned char *d = b64_decode_ex((char *)s, len, in[0] & 2 ? NULL : &got); vp_fault_at = -1;
    if (!d) { if (!vp_faulted && c != 1) r = vp_fail("text of %zu base64 characters not decoded", c); }
    else {
      if (!(in[0] & 2) && got != want) r = vp_fail("decoded size %zu, expected %zu", got, want);
      for (size_t k = 0; k < want && !r; k++) { unsigned v[4]; for (int j = 0; j < 4; j++) { size_t p = 4 * (k / 3) + j; v[j] = p < c ? b64_val(s[p]) : 0; } if (d[k] != b64_dec(k % 3, v[0], v[1], v[2], v[3])) r = vp_fail("decoded byte %zu of %zu is wrong", k, want); }
      if (!r && d[want]) r = vp_fail("decoded bytes not terminated");
      vp_free(d);
    }
  } else {
    vp_fault_at = fault; char *e = b64_encode(s, len); vp_fault_at = -1;
    if (!e) { if (!vp_faulted) r = vp_fail("%zu bytes not encoded", len); }
    else {
      char *x = malloc(4 * (len / 3) + 5); size_t m = spec_enc(s, len, x); x[m] = 0;
      if (memcmp(e, x, m + 1)) r = vp_fail("encoding of %zu bytes is %.40s, expected %.40s", len, e, x);
      free(x);
      if (!r) { size_t got; unsigned char *d = b64_decode_ex(e, m, &got); if (len && (!d || got != len || memcmp(d, s, len))) r = vp_fail("decoding the encoding of %zu bytes does not give them back", len); if (d) vp_free(d); }
      vp_free(e);
    }
  }
  free(s);
  if (!r && vp_live != live) r = vp_fail("%ld blocks leaked", vp_live - live);
  return r;
}
static size_t vp_gen(uint8_t *o, uint64_t k) {
  o[0] = vp_rnd(); o[1] = vp_below(4) ? 0 : 1 + vp_below(20); size_t len = vp_below(3) ? vp_below(24) : vp_below(200);
  if (k < 256) { o[0] = 0; o[1] = 0; o[2] = k; return 3; }
  if (k < 512) { o[0] = 1; o[1] = 0; o[2] = 'Q'; o[3] = k; o[4] = 'R'; o[5] = '='; return 6; }
  if (k % 300 == 299) len = 3000 + vp_below(3);
  for (size_t i = 0; i < len; i++) o[2 + i] = (o[0] & 1) && vp_below(12) ? b64_char(vp_below(64)) : vp_below(8) ? vp_rnd() : "=\0-_ \n\xff\x80"[vp_below(8)];
  return 2 + len;
}
