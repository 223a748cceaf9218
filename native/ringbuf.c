/* P15 replay: sequences of acquire/produce/consume/release by several producers against a model that knows the state of every slot. */
#include "vp.h"
#include "ringbuf.h"
#define MAXS 64
enum { FREE, HELD, READY };
typedef struct { ringbuf_worker_t *w; int perm, held; size_t off, len; } prod;
static int vp_case(const uint8_t *in, size_t n) {
  if (n < 4) return 0;
  unsigned nw = in[0] % 4, nt = in[1] % 5, np; size_t space = 1 + in[2] % 24, sz = 0; int r = 0;
  if (nw + nt == 0) nt = 1;
  ringbuf_get_sizes(nw, nt, &sz, NULL); ringbuf_t *rb = malloc(sz); memset(rb, 0xA5, sz);
  if (ringbuf_setup(rb, nw, nt, space) != 0) { free(rb); return vp_fail("setup refuses %zu", space); }
  prod p[12]; memset(p, 0, sizeof p); np = nw; for (unsigned i = 0; i < nw; i++) { p[i].w = ringbuf_register(rb, i); p[i].perm = 1; } np = nw + 6;
  int st[MAXS] = {0}; int owner[MAXS] = {0}; /* state of every slot */
  size_t fifo[4096], head = 0, tail = 0;     /* slots in the order in which they were acquired */
  unsigned busy_temp = 0; int ones = 1; /* only single slots so far, as the server uses it */
  for (size_t k = 3; k + 1 < n && !r; k += 2) {
    unsigned op = in[k] % 4; prod *q = &p[in[k + 1] % np];
    if (op <= 1) { /* acquire; a producer that already holds a range produces it */
      if (q->held) goto produce;
      size_t len = 1 + (in[k] >> 2) % (in[k] & 128 ? space : space > 3 ? 3 : space); ringbuf_worker_t *was = q->w; ones &= len == 1;
      ssize_t off = ringbuf_acquire(rb, &q->w, len);
      if (off < 0) {
        /* may be refused only for want of a worker record or of len contiguous free slots (one slot always stays free) */
        size_t fr = 0; for (size_t i = 0; i < space; i++) fr += st[i] == FREE;
        if (q->perm ? q->w != was : q->w != NULL) r = vp_fail("a refused acquire leaves a worker record behind");
        else if (head == tail && len < space && (q->perm || busy_temp < nt)) { /* nothing outstanding: the whole buffer is free, at worst split at 'written' */
          if (len * 2 < space) r = vp_fail("acquire of %zu refused although the buffer of %zu is empty", len, space); }
        else if (ones && fr >= 2 && (q->perm || busy_temp < nt)) r = vp_fail("acquire of one slot refused with %zu of %zu slots free", fr, space);
      } else {
        if ((size_t)off + len > space) { r = vp_fail("acquire of %zu returned offset %zd in a buffer of %zu", len, off, space); break; }
        for (size_t i = off; i < off + len; i++) { if (st[i] != FREE) { r = vp_fail("slot %zu is in use (state %d) and was handed out again", i, st[i]); break; } st[i] = HELD; owner[i] = q - p; fifo[tail++ % 4096] = i; }
        if (!q->perm) { busy_temp++; if (busy_temp > nt) r = vp_fail("%u temporary producers hold ranges, there are only %u records", busy_temp, nt); }
        for (unsigned i = 0; i < np && !r; i++) if (&p[i] != q && p[i].held && p[i].w == q->w) r = vp_fail("two producers share a worker record");
        q->held = 1; q->off = off; q->len = len; }
    } else if (op == 2) { produce:
      if (!q->held) continue;
      ringbuf_produce(rb, &q->w); q->held = 0; if (!q->perm) { busy_temp--; if (q->w) r = vp_fail("temporary worker record kept after produce"); }
      for (size_t i = q->off; i < q->off + q->len; i++) st[i] = READY;
    } else {
      size_t off = 999, len = ringbuf_consume(rb, &off);
      if (len) {
        if (off + len > space) { r = vp_fail("consume returned [%zu,+%zu) in a buffer of %zu", off, len, space); break; }
        for (size_t i = 0; i < len && !r; i++) {
          if (st[off + i] != READY) r = vp_fail("slot %zu was consumed in state %d", off + i, st[off + i]);
          else if (head + i >= tail || fifo[(head + i) % 4096] != off + i) r = vp_fail("slot %zu was consumed out of order", off + i); }
        if (r) break;
        size_t rel = in[k] & 64 ? len : (in[k + 1] >> 3) % (len + 1); ringbuf_release(rb, rel);
        for (size_t i = 0; i < rel; i++) { st[off + i] = FREE; head++; }
      } else if (head != tail && st[fifo[head % 4096]] == READY) r = vp_fail("nothing to consume although slot %zu is ready", fifo[head % 4096]);
    }
  }
  /* drain */
  for (unsigned i = 0; i < np && !r; i++) if (p[i].held) { ringbuf_produce(rb, &p[i].w); p[i].held = 0; for (size_t j = p[i].off; j < p[i].off + p[i].len; j++) st[j] = READY; }
  for (int i = 0; i < 3 && !r; i++) { size_t off, len = ringbuf_consume(rb, &off); for (size_t j = 0; j < len && !r; j++) { if (head == tail || fifo[head % 4096] != off + j || st[off + j] != READY) r = vp_fail("slot %zu drained out of order", off + j); else { st[off + j] = FREE; head++; } } if (!r) ringbuf_release(rb, len); }
  if (!r && head != tail) r = vp_fail("%zu produced slots were never consumed", tail - head);
  free(rb); return r;
}
static size_t vp_gen(uint8_t *o, uint64_t k) {
  size_t n = 4 + vp_below(240); for (size_t i = 0; i < n; i++) o[i] = vp_rnd();
  if (k % 3 == 0) { o[0] = 0; o[1] = 1 + vp_below(4); o[2] = vp_below(6); for (size_t i = 3; i + 1 < n; i += 2) { o[i] = (o[i] & 0xC3); } } /* as the server uses it: one slot at a time, temporary records */
  return n;
}
