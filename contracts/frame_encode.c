/* P02/P03: frame serialisation. Contracts for WSS_stringify_frame and WSS_stringify_frames of src/frame.c. */
#define VP_GHOST_SIMD
#define VP_OWN_ALLOC
#include "common.h"
#include "spec_frame.h"
#include "frame.h"
#ifndef MAXLEN
#define MAXLEN (1UL<<32)
#endif
size_t hk;                     /* arbitrary position in the output */
_Bool h_track;                 /* put the ghost byte on position hk of the next allocation */
void *WSS_malloc(size_t n) {
  if (n == 0) return NULL;
  char *p = calloc(1, n);
  if (p == NULL) { vp_oom = 1; return NULL; }
  if (h_track) vp_g1 = hk < n ? p + hk : NULL;
  return p;
}
#ifdef LIST
/* the growing result: the resize contract keeps the content and zeroes the rest; one harness object stands for it */
char *h_buf; size_t h_bufsize, h_max;
void *WSS_realloc(void **p, size_t old, size_t size) {
  __CPROVER_assert(*p == NULL ? old == 0 : *p == (void*)h_buf && old <= h_bufsize, "the old size given to realloc is the size in use");
  if (size == 0 || size > h_max || nondet_bool()) { *p = NULL; vp_oom = 1; return NULL; }
  if (*p == NULL || old < size) {
    char v = *vp_g0;
    if (hk >= old && hk < size) v = 0;
    __CPROVER_havoc_object(h_buf);
    __CPROVER_assume(*vp_g0 == v);
  }
  h_bufsize = size;
  return h_buf;
}
/* dfcc does not know that a block allocated in an iteration may be freed on the way out of the loop: only forget the
 * pointer; that nothing is freed twice or leaked is left to the replay program under AddressSanitizer */
void WSS_free(void **p) { *p = NULL; }
#else
void WSS_free(void **p) { if (*p != NULL) { free(*p); *p = NULL; } }
#endif

#ifndef LIST
size_t WSS_stringify_frame(wss_frame_t *frame, char **message)
__CPROVER_requires(frame == NULL || __CPROVER_rw_ok(frame, sizeof(*frame)))
__CPROVER_requires(frame != NULL ==> frame->payloadLength < MAXLEN && frame->extensionDataLength <= frame->payloadLength &&
   frame->applicationDataLength == frame->payloadLength - frame->extensionDataLength)
__CPROVER_requires(frame != NULL && frame->payloadLength > 0 ==> __CPROVER_r_ok(frame->payload, frame->payloadLength))
__CPROVER_requires(__CPROVER_rw_ok(message, sizeof(*message)))
__CPROVER_assigns(*message, vp_g1, vp_oom)
__CPROVER_ensures((__CPROVER_return_value == 0) == (*message == NULL))
__CPROVER_ensures(__CPROVER_return_value == 0 ==> frame == NULL || vp_oom)
__CPROVER_ensures(frame == NULL ==> __CPROVER_return_value == 0)
__CPROVER_ensures(__CPROVER_return_value != 0 ==> __CPROVER_return_value == spec_enc_hdr(frame->payloadLength) + frame->payloadLength)
__CPROVER_ensures(__CPROVER_return_value != 0 ==> __CPROVER_rw_ok(*message, __CPROVER_return_value))
__CPROVER_ensures(__CPROVER_return_value != 0 && hk < spec_enc_hdr(frame->payloadLength) ==> (unsigned char)(*message)[hk] ==
   spec_enc_byte(hk, frame->fin, frame->rsv1, frame->rsv2, frame->rsv3, frame->opcode, frame->payloadLength))
__CPROVER_ensures(__CPROVER_return_value != 0 && hk >= spec_enc_hdr(frame->payloadLength) && hk < __CPROVER_return_value ==>
   (*message)[hk] == frame->payload[hk - spec_enc_hdr(frame->payloadLength)])
;
#else
/* used through this contract only: established by the job WSS_stringify_frame. n bytes, whatever they are; the ghosts
 * record where the encoding of the arbitrary frame gi lands in the concatenation and its arbitrary byte. */
size_t gi, g_cnt, g_tot; char g_val; _Bool g_seen, g_err; size_t g_off, g_n;
size_t WSS_stringify_frame(wss_frame_t *frame, char **message)
__CPROVER_requires(__CPROVER_w_ok(message, sizeof(*message)))
__CPROVER_assigns(*message, g_cnt, g_tot, g_val, g_seen, g_err, vp_g1)
__CPROVER_ensures(__CPROVER_return_value != 0 ==> __CPROVER_is_fresh(*message, __CPROVER_return_value))
__CPROVER_ensures(__CPROVER_return_value == 0 ==> *message == NULL)
__CPROVER_ensures(__CPROVER_return_value == 0 || __CPROVER_return_value >= 2)
__CPROVER_ensures(__CPROVER_return_value < MAXLEN)
__CPROVER_ensures(g_err == (__CPROVER_old(g_err) || __CPROVER_return_value == 0))
__CPROVER_ensures(g_cnt == __CPROVER_old(g_cnt) + 1 && g_tot == __CPROVER_old(g_tot) + __CPROVER_return_value)
__CPROVER_ensures(vp_g1 == __CPROVER_old(vp_g1))
__CPROVER_ensures(hk >= __CPROVER_old(g_tot) && hk < g_tot ==> g_seen && g_val == (*message)[hk - __CPROVER_old(g_tot)])
__CPROVER_ensures(!(hk >= __CPROVER_old(g_tot) && hk < g_tot) ==> g_seen == __CPROVER_old(g_seen) && g_val == __CPROVER_old(g_val))
;
size_t WSS_stringify_frames(wss_frame_t **frames, size_t size, char **message)
__CPROVER_requires(size > 0 ==> __CPROVER_r_ok(frames, size * sizeof(*frames)))
__CPROVER_requires(__CPROVER_w_ok(message, sizeof(*message)))
__CPROVER_requires(g_cnt == 0 && g_tot == 0 && !g_seen && !g_err)
__CPROVER_assigns(*message, g_cnt, g_tot, g_val, g_seen, g_err, vp_g1, vp_oom, h_bufsize, __CPROVER_object_whole(h_buf))
__CPROVER_ensures(__CPROVER_return_value == 0 ==> *message == NULL)
__CPROVER_ensures(__CPROVER_return_value == 0 ==> size == 0 || g_err || vp_oom)
__CPROVER_ensures(g_err ==> __CPROVER_return_value == 0)
__CPROVER_ensures(__CPROVER_return_value != 0 ==> __CPROVER_return_value == g_tot && g_cnt == size && *message == h_buf && h_bufsize >= g_tot)
__CPROVER_ensures(__CPROVER_return_value != 0 && hk < g_tot ==> g_seen && *vp_g0 == g_val)
;
#endif
/* only used for P03: a frame that is not masked is never unmasked */
static void unmask(wss_frame_t *frame)
__CPROVER_requires(frame->mask)
__CPROVER_assigns()
;
#include "src/frame.c"

#ifndef LIST
void harness_one(void) {
  wss_frame_t f; char *m; size_t n = nondet_size_t(); _Bool isnull = nondet_bool();
  __CPROVER_assume(n < MAXLEN);
  f.payloadLength = n; f.extensionDataLength = nondet_size_t();
  __CPROVER_assume(f.extensionDataLength <= n);
  f.applicationDataLength = n - f.extensionDataLength;
  f.payload = malloc(n);
  __CPROVER_assume(f.payload != NULL);
  hk = nondet_size_t(); vp_g0 = NULL; vp_g1 = NULL; vp_oom = 0; h_track = 1;
  WSS_stringify_frame(isnull ? NULL : &f, &m);
  REACH;
}
/* P03: composition of the real encoder and the real decoder */
void harness_roundtrip(void) {
  wss_frame_t f; char *m; size_t n = nondet_size_t();
  __CPROVER_assume(n < MAXLEN);
  f.payloadLength = n; f.extensionDataLength = 0; f.applicationDataLength = n; f.payload = malloc(n);
  f.fin = nondet_bool(); f.rsv1 = nondet_bool(); f.rsv2 = nondet_bool(); f.rsv3 = nondet_bool(); f.opcode = nondet_uint() & 15;
  __CPROVER_assume(f.payload != NULL);
  size_t k = nondet_size_t(); hk = SIZE_MAX; vp_g0 = NULL; vp_g1 = NULL; vp_oom = 0; h_track = 0;
  if (k < n) vp_g0 = f.payload + k;
  size_t len = WSS_stringify_frame(&f, &m);
  if (len == 0) { REACH; return; }
  size_t off = 0;
  char *g = vp_g1;
  if (k < n) { vp_g0 = g; vp_g1 = NULL; }
  wss_frame_t *d = WSS_parse_frame(m, len, &off);
  if (d != NULL) {
    __CPROVER_assert(off == len, "decoding consumes exactly the encoded bytes");
    __CPROVER_assert(d->fin == f.fin && d->rsv1 == f.rsv1 && d->rsv2 == f.rsv2 && d->rsv3 == f.rsv3 && d->opcode == f.opcode && !d->mask, "flags and opcode survive");
    __CPROVER_assert(d->payloadLength == n && d->applicationDataLength == n && d->extensionDataLength == 0, "length survives");
    if (k < n) __CPROVER_assert(d->payload[k] == f.payload[k], "every payload byte survives");
  }
  REACH;
}
#else
void harness_list(void) {
  size_t size = nondet_size_t(); char *m;
  __CPROVER_assume(size < (1UL << 40));
  wss_frame_t **frames = malloc(size * sizeof(*frames));
  __CPROVER_assume(frames != NULL);
  h_max = nondet_size_t(); __CPROVER_assume(h_max > 0 && h_max < MAXLEN);
  h_buf = malloc(h_max); __CPROVER_assume(h_buf != NULL);
  hk = nondet_size_t(); __CPROVER_assume(hk < h_max);
  h_track = 0; vp_oom = 0; h_bufsize = 0; vp_g0 = h_buf + hk; vp_g1 = NULL; g_cnt = 0; g_tot = 0; g_seen = 0; g_err = 0;
  WSS_stringify_frames(frames, size, &m);
  REACH;
}
#endif
