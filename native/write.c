/* P14 replay: queues of messages, partial writes, interruptions, delays and errors of the socket; the real WSS_work/WSS_write. */
#include "world.h"
#define FD W_BASE
static char exp_[1 << 18]; static size_t exp_len; static int exp_closed; static size_t msg_end[4096], nmsg;
static int add(wss_session_t *s, unsigned kind, unsigned len, unsigned seed) {
  static char b[8192]; vp_prng r = { seed * 31u + nmsg }; size_t n = 1 + len; if (kind & 4) n += 700; for (size_t i = 0; i < n; i++) b[i] = vp_byte(&r);
  int framed = !(kind & 1); unsigned op = kind >> 3 & 15; if (framed) { if (n < 2) n = 2; b[0] = 0x80 | op; b[1] = (char)(n - 2 < 126 ? n - 2 : 126); }
  if (nmsg >= 4000 || exp_len + n > sizeof exp_) return 0;
  if (!w_put(s, b, n, framed)) return 0;
  if (!exp_closed) { memcpy(exp_ + exp_len, b, n); exp_len += n; msg_end[nmsg++] = exp_len; if (framed && op == 8) exp_closed = 1; }
  return 1; }
static int vp_case(const uint8_t *in, size_t n) {
  if (n < 8) return 0;
  w_reset(); long live = vp_live; exp_len = 0; exp_closed = 0; nmsg = 0; volatile int r = 0; volatile size_t k = 2;
  W_cfg.size_ringbuffer = 2 + in[0] % 7; wss_session_t *s = w_session(FD, 1); W_plan = in; W_plan_len = n; size_t np = in[1]; if (np > n / 2) np = n / 2; W_plan_pos = n - np;
  if (setjmp(W_stuck)) { r = vp_fail("%s", W_why); goto out; }
  for (int rounds = 0; rounds < 400; rounds++) {
    unsigned adds = k + 2 < n - np ? in[k++] % 5 : 0; for (unsigned i = 0; i < adds && k + 2 < n - np; i++) { add(s, in[k], in[k + 1] % 200, in[k + 2]); k += 3; }
    W_hard = W_eagain = 0; size_t before = W[0].out_len; int hadwork = W[0].out_len < exp_len;
    if (W_plan_pos >= n) W_plan_len = 0, W_plan_pos = 0;
    w_work(FD, WRITING);
    int gone = WSS_session_find(FD) == NULL;
    if (W[0].out_len > exp_len || memcmp(W[0].out, exp_, W[0].out_len)) {
      size_t d = 0; while (d < exp_len && d < W[0].out_len && W[0].out[d] == (uint8_t)exp_[d]) d++;
      r = vp_fail("the bytes written differ from the queued messages at offset %zu (%zu written, %zu queued%s)", d, W[0].out_len, exp_len, exp_closed ? ", close frame last" : ""); break; }
    int close_done = exp_closed && W[0].out_len == exp_len;
    if (gone != W[0].closed) { r = vp_fail("descriptor %s while the session is %s", W[0].closed ? "closed" : "open", gone ? "gone" : "alive"); break; }
    if (W_hard) { if (!gone) r = vp_fail("write error did not close the connection"); break; }
    if (close_done) { if (!gone) r = vp_fail("close frame written completely, connection still open"); break; }
    if (gone) { r = vp_fail("connection closed after %zu of %zu bytes without error or close frame", W[0].out_len, exp_len); break; }
    if (W[0].out_len < exp_len) { if (!W_eagain) { r = vp_fail("stopped after %zu of %zu bytes although the socket accepts more", W[0].out_len, exp_len); break; }
      if (!W[0].poll_write) { r = vp_fail("%zu of %zu bytes written, not waiting for the socket to become writable", W[0].out_len, exp_len); break; }
    } else if (!W[0].poll_read) { r = vp_fail("everything written, not waiting for input"); break; }
    if (k + 2 >= n - np && W[0].out_len == exp_len) break;
  }
out:
  W_why = NULL; if (setjmp(W_stuck)) { return r ? r : vp_fail("%s", W_why); }
  if (!r || WSS_session_find(FD)) { wss_session_t *t = WSS_session_find(FD); if (t && !r) WSS_session_delete(t); else if (t) { WSS_session_delete(t); } }
  if (!r && vp_live != live) r = vp_fail("%ld blocks leaked", vp_live - live);
  return r;
}
static size_t vp_gen(uint8_t *o, uint64_t k) {
  size_t n = 8 + vp_below(k & 1 ? 60 : 300); for (size_t i = 0; i < n; i++) o[i] = vp_rnd();
  size_t np = n / 3; o[1] = np; for (size_t i = 2; i < n - np; i++) if (vp_below(3) == 0) o[i] &= ~4;
  int dull = vp_below(3); /* how often writes fail */
  for (size_t i = n - np; i < n; i++) { unsigned c = vp_below(10); o[i] = c < 4 ? 1 + vp_below(20) : c < 6 ? 0 : c < 8 ? 252 : c == 8 ? 251 : dull ? 1 + vp_below(250) : 253; }
  return n; }
