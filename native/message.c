/* P26 replay: histories of sends to several sessions, with allocation failures, full queues, slow and broken sockets, sessions that are not ready. */
#include "world.h"
#include "../contracts/spec_frame.h"
#define NS 3
static uint8_t *exp_[NS]; static size_t exp_len[NS], exp_cap[NS]; static int hs[NS], broken[NS], closed[NS]; static int e_frames, e_count, e_rsv;
static void e_outframes(int fd, wss_frame_t **f, size_t n) { e_count++; for (size_t i = 0; i < n; i++) f[i]->rsv1 = i == 0; }
static void e_outframe(int fd, wss_frame_t *f) { e_frames++; f->rsv2 = f->rsv1; }
static void e_close(int fd) {}
static wss_extension_t ext = { .outframes = e_outframes, .outframe = e_outframe, .close = e_close };
static void put(int i, const uint8_t *b, size_t n) { if (exp_len[i] + n > exp_cap[i]) { exp_cap[i] = (exp_len[i] + n) * 2; exp_[i] = realloc(exp_[i], exp_cap[i]); } if (n) memcpy(exp_[i] + exp_len[i], b, n); exp_len[i] += n; }
static void expect(int i, int op, const char *m, size_t n, int rsv) { /* the frames of a message, as the fragment size asks for */
  size_t fs = op == 8 ? 1000 : W_cfg.size_frame, off = 0; int first = 1; char cl[126];
  if (op == 8 && n > 125) { memcpy(cl, m, 125); m = cl; n = 125; }
  do { size_t k = n - off < fs ? n - off : fs; uint8_t h[10]; size_t hl = spec_enc_hdr(k);
    for (size_t j = 0; j < hl; j++) h[j] = spec_enc_byte(j, off + k == n, rsv && first, rsv && first, 0, first ? op : 0, k);
    put(i, h, hl); put(i, (const uint8_t *)m + off, k); off += k; first = 0; } while (off < n); }
static int vp_case(const uint8_t *in, size_t n) {
  if (n < 8) return 0;
  w_reset(); volatile int r = 0; long live0 = vp_live; for (int i = 0; i < NS; i++) { exp_len[i] = 0; broken[i] = closed[i] = 0; }
  W_cfg.size_ringbuffer = 2 + in[0] % 6; W_cfg.size_frame = 1 + in[1]; if (in[1] > 200) W_cfg.size_frame = 70000; wss_session_t *s[NS]; static char buf[70000];
  wss_ext_t **xl = NULL; int usext = in[2] & 1;
  for (int i = 0; i < NS; i++) { hs[i] = i < 2 || in[2] & 2; s[i] = w_session(W_BASE + i, hs[i]); s[i]->event = READ; }
  if (usext) for (int i = 0; i < NS; i++) if (hs[i]) { s[i]->header->ws_extensions = WSS_malloc(sizeof *xl); s[i]->header->ws_extensions[0] = WSS_malloc(sizeof **xl); s[i]->header->ws_extensions[0]->ext = &ext; s[i]->header->ws_extensions_count = 1; }
  size_t np = n / 3; W_plan = in; W_plan_len = n; W_plan_pos = n - np; volatile size_t k = 3;
  if (setjmp(W_stuck)) { r = vp_fail("%s", W_why); return r; }
  while (k + 5 < n - np && !r) {
    unsigned a = in[k] % 8, who = in[k + 1] % (NS + 1); unsigned op = in[k + 1] >> 4, len = in[k + 2] | (in[k] & 128 ? in[k + 3] << 8 : 0); int fault = in[k + 4]; k += 5;
    if (who == NS) { if (a == 1) WSS_message_send(W_BASE + NS, TEXT_FRAME, "x", 1); continue; }
    wss_session_t *t = WSS_session_find(W_BASE + who); if (!t) continue;
    w_fd *f = &W[who]; size_t before = f->out_len; W_hard = W_eagain = 0; size_t e0 = exp_len[who];
    if (a <= 5) {
      op = op < 12 ? 1 + (op & 1) : op == 12 ? 8 : op == 13 ? 9 : 10; if (len / W_cfg.size_frame > 60) len = 60 * W_cfg.size_frame; if (op > 8 && len > 125) len %= 126; if (op == 8) { if (len > 125) len %= 126; if (len == 1) len = 0; }
      for (size_t i = 0; i < len; i++) buf[i] = 'a' + (i * 7 + len) % 26; if (len / W_cfg.size_frame > 60) len = 60 * W_cfg.size_frame; if (op > 8 && len > W_cfg.size_frame) len = W_cfg.size_frame; if (op == 8) { buf[0] = 3; buf[1] = (char)0xE8; }
      wss_session_state_t st0 = t->state; long live = vp_live; int wasw = t->state == WRITING; int jobs0 = t->jobs; e_count = e_frames = 0;
      size_t queued0 = 0; for (int i = 0; i < t->messages_count; i++) queued0 += t->messages[i] != NULL; unsigned pw0 = f->poll_write;
      vp_faulted = 0; vp_fault_at = a == 0 && fault < 12 ? fault : -1;
      WSS_message_send(W_BASE + who, op, buf, len); vp_fault_at = -1;
      if (t->jobs != jobs0) { r = vp_fail("sending left the session with %d jobs instead of %d", t->jobs, jobs0); break; }
      size_t queued = 0; for (int i = 0; i < t->messages_count; i++) queued += t->messages[i] != NULL;
      if (!hs[who]) { if (queued || f->out_len) { r = vp_fail("frames sent to a session that is not handshaked"); } else if (vp_live != live) r = vp_fail("%ld blocks leaked sending to a session that is not handshaked", vp_live - live); continue; }
      if (vp_faulted) { /* all or nothing */
        if (queued != queued0 || f->out_len != before) r = vp_fail("a send that failed for lack of memory enqueued something"); else if (vp_live != live) r = vp_fail("a send that failed for lack of memory leaked %ld blocks", vp_live - live);
        continue; }
      if (closed[who]) { if (f->out_len != before) r = vp_fail("%zu bytes written after the close frame", f->out_len - before); continue; }
      if (broken[who]) continue;
      int accepted = queued > queued0 || f->out_len != before || (!wasw && !W_eagain && !W_hard && queued == 0);
      if (!accepted && !W_hard && !W_eagain) { if (queued0 + 1 < (size_t)t->messages_count) { r = vp_fail("message refused although only %zu of %d slots are in use", queued0, t->messages_count); break; } if (vp_live != live) r = vp_fail("a refused send leaked %ld blocks", vp_live - live); continue; }
      expect(who, op, buf, op == 8 && len == 0 ? 2 : len, usext); if (op == 8) closed[who] = 1;
      size_t fr = op >= 8 ? 1 : len == 0 ? 1 : (len + W_cfg.size_frame - 1) / W_cfg.size_frame;
      if (usext && op < 8 && (e_count != 1 || e_frames != (int)fr)) { r = vp_fail("extension saw %d messages and %d frames of a message of %zu frames", e_count, e_frames, fr); break; }
      if (W_hard) { broken[who] = 1; }
    } else { /* the event loop reports the socket writable */
      if (!hs[who] || !f->poll_write) continue;
      w_work(W_BASE + who, WRITING); if (W_hard) broken[who] = 1;
    }
    if (f->out_len > exp_len[who] || (f->out_len && memcmp(f->out, exp_[who], f->out_len))) { size_t d = 0; while (d < exp_len[who] && d < f->out_len && exp_[who][d] == f->out[d]) d++; r = vp_fail("session %d: bytes written differ from the sent messages at offset %zu (%zu written, %zu sent)", who, d, f->out_len, exp_len[who]); break; }
    t = WSS_session_find(W_BASE + who);
    if (broken[who]) { if (t && !t->closing) r = vp_fail("write error did not mark the session as closing"); continue; }
    if (f->out_len < exp_len[who]) { if (!t) r = vp_fail("session gone with %zu of %zu bytes written", f->out_len, exp_len[who]); else if (!f->poll_write) r = vp_fail("%zu of %zu bytes written and nobody waits for the socket to become writable", f->out_len, exp_len[who]); }
    else if (closed[who] && t && !t->closing) r = vp_fail("close frame written, session not closing");
  }
  if (!r) for (int i = 0; i < NS; i++) { wss_session_t *t = WSS_session_find(W_BASE + i); if (t) WSS_disconnect(&W_srv, t); }
  if (!r && vp_live != live0) r = vp_fail("%ld blocks leaked", vp_live - live0);
  if (r) for (int i = 0; i < NS; i++) { wss_session_t *t = WSS_session_find(W_BASE + i); if (t) { WSS_session_delete(t); } }
  return r;
}
static size_t vp_gen(uint8_t *o, uint64_t k) {
  size_t n = 20 + vp_below(k & 1 ? 80 : 400), np = n / 3; for (size_t i = 0; i < n; i++) o[i] = vp_rnd();
  if (k & 2) o[1] = vp_below(4) ? 255 : vp_below(30);
  int dull = vp_below(3); for (size_t i = n - np; i < n; i++) { unsigned c = vp_below(12); o[i] = c < 4 ? 1 + vp_below(20) : c < 8 ? 0 : c < 10 ? 252 : c == 10 ? 251 : dull ? 1 + vp_below(250) : 253; }
  for (size_t i = 3; i + 5 < n - np; i += 5) { if (vp_below(4)) o[i] &= 127; if (vp_below(3)) { o[i + 1] &= 0x3f; } if (vp_below(4) == 0) o[i] = (o[i] & ~7) | 6; o[i + 4] = vp_below(24); }
  return n; }
