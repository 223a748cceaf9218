/* P04/P05: fragmentation of outgoing messages and control frames. Contracts for WSS_create_frames,
 * WSS_closing_frame, WSS_ping_frame, WSS_pong_frame of src/frame.c. */
#define VP_GHOST_SIMD
#define VP_OWN_ALLOC
#include "common.h"
#include <math.h>
#include "frame.h"
#ifndef MAXLEN
#define MAXLEN (1UL<<32)
#endif
/* the reason text given by the caller: an object of h_slen+1 bytes whose first NUL is at h_slen (h_slen arbitrary) */
char *h_msg; size_t h_slen;
static size_t vp_strlen(const char *s) {
  if (h_msg != NULL && VP_SAME(s, h_msg)) return h_slen - VP_D(s, h_msg);
  size_t n = 0; while (s[n]) n++; return n;
}
#define strlen(s) vp_strlen(s)
size_t hk;
#define KNOWN_CODE(c) ((c) >= 1000 && (c) <= 1015 && (c) != 1004)

#ifdef CREATE
#ifdef UNROLL
#define TRK(fs) (*(fs)[gi])
#define GPAY(fs) (fs)[gi]->payload
#define MAXFRAMES UNROLL
#define MAXSF 0xffffffffU
#else
#define TRK(fs) G
#endif
#ifndef MAXFRAMES
#define MAXFRAMES 63
#endif
#ifndef MAXSF
#define MAXSF 63
#endif
wss_config_t h_cfg; size_t h_len, h_n, gi; unsigned h_sf; wss_opcode_t h_op;
wss_frame_t G, L; char *PG; size_t g_f, g_p, h_exp; _Bool g_arr;   /* the tracked frame gi, the last frame, the tracked frame's payload */
/* trusted arithmetic lemma: below 2^32, ceil of the rounded quotient is the exact h_n = ceil(len/size) */
static double vp_ceil(double x) {
  __CPROVER_assert(x == (double)h_len / (double)h_sf, "ceil is taken of message length / frame size");
  return (double)h_n;
}
#ifdef CEILARG  /* this job checks the argument of ceil only (the path ends at the first allocation) */
#define ceil(x) vp_ceil(x)
#define NOMEM 1
#else           /* this job everything else; its formula has no floating-point division */
#define ceil(x) ((double)h_n)
#ifdef UNROLL
#define NOMEM 0
#else
#define NOMEM nondet_bool()
#endif
#endif
void *WSS_malloc(size_t n) {
  if (n == 0) return NULL;
  if (NOMEM) { vp_oom = 1; return NULL; }
#ifdef UNROLL
  void *q = calloc(1, n); __CPROVER_assume(q != NULL); return q;
#endif
  if (!g_arr) { g_arr = 1; void *p = calloc(1, n); __CPROVER_assume(p != NULL); return p; } /* the array of frames */
  if (n == sizeof(wss_frame_t) && g_f == g_p) {
    size_t c = g_f++;
    /* facts about h_n = ceil(h_len / h_sf) at this index  */
    if (c + 1 < h_n) __CPROVER_assume((size_t)h_sf * c + h_sf < h_len);
    if (c + 1 == h_n) __CPROVER_assume((size_t)h_sf * c < h_len && h_len - (size_t)h_sf * c <= h_sf);
    __CPROVER_assume((size_t)h_sf * (c + 1) == (size_t)h_sf * c + h_sf);
    if (c == gi) { G = (wss_frame_t){0}; return &G; }
    if (c + 1 == h_n || c == 0 && h_n == 0) { L = (wss_frame_t){0}; return &L; }
    void *p = calloc(1, n); __CPROVER_assume(p != NULL); return p;
  }
  if (g_f == g_p + 1) {
    size_t c = g_p++;
    if (c == gi && n == h_exp + 1) { __CPROVER_havoc_object(PG); return PG; }
  }
  void *p = calloc(1, n); __CPROVER_assume(p != NULL); return p;
}
void WSS_free(void **p) { *p = NULL; }
wss_frame_t *WSS_closing_frame(wss_close_t reason, char *message)
__CPROVER_requires(message == NULL || __CPROVER_r_ok(message, 1))
__CPROVER_assigns(vp_oom)
__CPROVER_ensures(__CPROVER_return_value != NULL ==> __CPROVER_is_fresh(__CPROVER_return_value, sizeof(wss_frame_t)))
;
void WSS_free_frame(wss_frame_t *frame) __CPROVER_requires(1) __CPROVER_assigns() __CPROVER_ensures(1);
size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *message, size_t message_length, wss_frame_t ***fs)
__CPROVER_requires(opcode == h_op && h_op != CLOSE_FRAME && message_length == h_len && h_sf >= 1 && (config == NULL || config == &h_cfg && h_cfg.size_frame == h_sf))
__CPROVER_requires(message == NULL || __CPROVER_r_ok(message, message_length))
__CPROVER_requires(__CPROVER_w_ok(fs, sizeof(*fs)) && g_f == 0 && g_p == 0)
__CPROVER_assigns(*fs, G, L, g_f, g_p, g_arr, vp_oom, vp_g1, __CPROVER_object_whole(PG))
__CPROVER_ensures(__CPROVER_return_value == 0 ==> *fs == NULL && (vp_oom || config == NULL || (message == NULL && message_length != 0)))
__CPROVER_ensures(__CPROVER_return_value != 0 ==> __CPROVER_return_value == (h_n ? h_n : 1) && __CPROVER_r_ok(*fs, __CPROVER_return_value * sizeof(**fs)))
#ifndef UNROLL
__CPROVER_ensures(__CPROVER_return_value != 0 && gi < __CPROVER_return_value ==> (*fs)[gi] == &G && G.payload == PG)
#endif
__CPROVER_ensures(__CPROVER_return_value != 0 && gi < __CPROVER_return_value ==>
   TRK(*fs).fin == (gi == __CPROVER_return_value - 1) && TRK(*fs).opcode == (gi == 0 ? h_op : CONTINUATION_FRAME) && !TRK(*fs).mask && !TRK(*fs).rsv1 && !TRK(*fs).rsv2 && !TRK(*fs).rsv3 &&
   TRK(*fs).extensionDataLength == 0 && TRK(*fs).applicationDataLength == TRK(*fs).payloadLength && TRK(*fs).payloadLength == h_exp && TRK(*fs).payloadLength <= h_sf)
#ifndef NOCONTENT
__CPROVER_ensures(__CPROVER_return_value != 0 && gi < __CPROVER_return_value && hk < h_exp ==> TRK(*fs).payload[hk] == *vp_g0)
#endif
;
#else
void *WSS_malloc(size_t n) {
  if (n == 0) return NULL;
  void *p = calloc(1, n);
  if (p == NULL) vp_oom = 1;
  return p;
}
void WSS_free(void **p) { if (*p != NULL) { free(*p); *p = NULL; } }
wss_frame_t *WSS_closing_frame(wss_close_t reason, char *message)
__CPROVER_requires(message == NULL || message == h_msg)
__CPROVER_assigns(vp_oom, vp_g1)
__CPROVER_ensures(__CPROVER_return_value == NULL ==> vp_oom || (message == NULL && !KNOWN_CODE(reason)))
__CPROVER_ensures(__CPROVER_return_value != NULL ==> (__CPROVER_return_value->fin && __CPROVER_return_value->opcode == CLOSE_FRAME && !__CPROVER_return_value->mask &&
  !__CPROVER_return_value->rsv1 && !__CPROVER_return_value->rsv2 && !__CPROVER_return_value->rsv3 && __CPROVER_return_value->extensionDataLength == 0 &&
  __CPROVER_return_value->applicationDataLength == __CPROVER_return_value->payloadLength && __CPROVER_return_value->payloadLength >= 2 && __CPROVER_return_value->payloadLength <= 125))
__CPROVER_ensures(__CPROVER_return_value != NULL ==> __CPROVER_rw_ok(__CPROVER_return_value->payload, __CPROVER_return_value->payloadLength) &&
  (unsigned char)__CPROVER_return_value->payload[0] == (unsigned char)((unsigned)reason >> 8) && (unsigned char)__CPROVER_return_value->payload[1] == (unsigned char)reason)
__CPROVER_ensures(__CPROVER_return_value != NULL && message != NULL ==> (h_slen <= 123 ? __CPROVER_return_value->payloadLength == h_slen + 2 : __CPROVER_return_value->payloadLength == 2 || (message[__CPROVER_return_value->payloadLength - 2] & 0xC0) != 0x80))
__CPROVER_ensures(__CPROVER_return_value != NULL && message != NULL && hk + 2 < __CPROVER_return_value->payloadLength && hk < 123 ==> __CPROVER_return_value->payload[2 + hk] == message[hk])
;
wss_frame_t *WSS_ping_frame()
__CPROVER_assigns(vp_oom)
__CPROVER_ensures(__CPROVER_return_value == NULL ==> vp_oom)
__CPROVER_ensures(__CPROVER_return_value != NULL ==> (__CPROVER_return_value->fin && __CPROVER_return_value->opcode == PING_FRAME && !__CPROVER_return_value->mask &&
  !__CPROVER_return_value->rsv1 && !__CPROVER_return_value->rsv2 && !__CPROVER_return_value->rsv3 && __CPROVER_return_value->extensionDataLength == 0 &&
  __CPROVER_return_value->applicationDataLength == __CPROVER_return_value->payloadLength && __CPROVER_return_value->payloadLength <= 125 &&
  (__CPROVER_return_value->payloadLength > 0 ==> __CPROVER_rw_ok(__CPROVER_return_value->payload, __CPROVER_return_value->payloadLength))))
;
wss_frame_t h_ping; char h_old;
wss_frame_t *WSS_pong_frame(wss_frame_t *ping)
__CPROVER_requires(ping == NULL || ping == &h_ping)
__CPROVER_assigns(h_ping)
__CPROVER_ensures((__CPROVER_return_value == NULL) == (ping == NULL))
__CPROVER_ensures(__CPROVER_return_value != NULL ==> (__CPROVER_return_value->fin && __CPROVER_return_value->opcode == PONG_FRAME && !__CPROVER_return_value->mask &&
  !__CPROVER_return_value->rsv1 && !__CPROVER_return_value->rsv2 && !__CPROVER_return_value->rsv3 &&
  __CPROVER_return_value->payloadLength == __CPROVER_old(h_ping.payloadLength) && __CPROVER_return_value->applicationDataLength == __CPROVER_old(h_ping.applicationDataLength) &&
  __CPROVER_return_value->extensionDataLength == __CPROVER_old(h_ping.extensionDataLength) && __CPROVER_return_value->payload == __CPROVER_old(h_ping.payload)))
__CPROVER_ensures(ping != NULL && hk < h_ping.payloadLength ==> h_ping.payload[hk] == h_old)
;
#endif
#ifdef NOCONTENT /* sizes, flags and order only: payload bytes are never read, so copies need only be checked for bounds */
static void *vp_copy_bounds(void *d, const void *s, size_t n) {
  if (n) { __CPROVER_assert(__CPROVER_r_ok(s, n), "copy reads inside the message"); __CPROVER_assert(__CPROVER_w_ok(d, n), "copy writes inside the payload"); }
  return d;
}
#undef memcpy
#define memcpy(d,s,n) (__builtin_constant_p(n) ? (memcpy)(d,s,n) : vp_copy_bounds(d,s,n))
#endif
#include "src/frame.c"

#ifdef CREATE
void harness_create(void) {
  wss_frame_t **fs; _Bool nocfg = nondet_bool(), nomsg = nondet_bool();
  h_len = nondet_size_t(); h_sf = nondet_uint(); h_n = nondet_size_t(); gi = nondet_size_t(); h_op = nondet_uint() & 15;
  __CPROVER_assume(h_len < MAXLEN && h_sf >= 1 && h_sf <= MAXSF && h_op != CLOSE_FRAME && h_n <= h_len && h_n <= MAXFRAMES);
  __CPROVER_assume(h_len == 0 ? h_n == 0 : (h_n >= 1 && (h_n - 1) * (size_t)h_sf < h_len && h_len <= h_n * (size_t)h_sf));
  __CPROVER_assume(gi < (h_n ? h_n : 1));
  __CPROVER_assume((size_t)h_sf * gi <= h_len);
  h_cfg.size_frame = h_sf;
  h_exp = gi + 1 < h_n ? h_sf : h_len - (size_t)h_sf * gi;
  PG = malloc(h_exp + 1); __CPROVER_assume(PG != NULL);
  char *msg = malloc(h_len); __CPROVER_assume(msg != NULL);
  hk = nondet_size_t(); vp_g0 = NULL; vp_g1 = NULL; vp_oom = 0; g_f = g_p = 0; g_arr = 0;
  if (hk < h_exp) vp_g0 = msg + (size_t)h_sf * gi + hk;
  WSS_create_frames(nocfg ? NULL : &h_cfg, h_op, nomsg ? NULL : msg, h_len, &fs);
  REACH;
}
#else
void harness_closing(void) {
  h_slen = nondet_size_t(); __CPROVER_assume(h_slen < MAXLEN);
  h_msg = malloc(h_slen + 1); __CPROVER_assume(h_msg != NULL); h_msg[h_slen] = 0;
  hk = nondet_size_t(); vp_g0 = NULL; vp_g1 = NULL; vp_oom = 0;
  if (hk < h_slen) vp_g0 = h_msg + hk;
  WSS_closing_frame(nondet_uint(), nondet_bool() ? NULL : h_msg);
  REACH;
}
void harness_ping(void) { vp_oom = 0; WSS_ping_frame(); REACH; }
void harness_pong(void) {
  size_t n = nondet_size_t(); __CPROVER_assume(n < MAXLEN);
  h_ping.payloadLength = n; h_ping.payload = malloc(n); __CPROVER_assume(h_ping.payload != NULL);
  hk = nondet_size_t(); if (hk < n) h_old = h_ping.payload[hk];
  WSS_pong_frame(nondet_bool() ? NULL : &h_ping);
  REACH;
}
#endif
