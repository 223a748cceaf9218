/* P01: frame decoding. Contracts for unmask() and WSS_parse_frame() of src/frame.c. */
#define VP_GHOST_SIMD
#include "common.h"
#include "spec_frame.h"
#include "frame.h"
#ifndef MAXLEN
#define MAXLEN (1UL<<32)
#endif
size_t gk;              /* arbitrary payload index */
unsigned char gold;     /* the byte there, before unmasking */

static void unmask(wss_frame_t *frame)
__CPROVER_requires(__CPROVER_rw_ok(frame, sizeof(*frame)))
__CPROVER_requires(frame->extensionDataLength == 0 && frame->applicationDataLength < MAXLEN)
__CPROVER_requires(frame->applicationDataLength > 0 ==> __CPROVER_rw_ok(frame->payload, frame->applicationDataLength))
__CPROVER_requires(gk < frame->applicationDataLength ==> gold == (unsigned char)frame->payload[gk])
__CPROVER_assigns(frame->applicationDataLength > 0: __CPROVER_object_whole(frame->payload); vp_g1)
__CPROVER_ensures(gk < frame->applicationDataLength ==> (unsigned char)frame->payload[gk] == (unsigned char)(gold ^ (unsigned char)frame->maskingKey[gk % 4]))
;
size_t h_off, h_len; unsigned char h_b[14]; _Bool h_complete; size_t h_hdr; uint64_t h_plen;

wss_frame_t *WSS_parse_frame(char *payload, size_t length, size_t *offset)
__CPROVER_requires(payload != NULL && __CPROVER_r_ok(payload, length) && length < MAXLEN)
__CPROVER_requires(__CPROVER_rw_ok(offset, sizeof(*offset)) && *offset < length)
__CPROVER_assigns(*offset, vp_g1, vp_oom)
__CPROVER_ensures(__CPROVER_return_value == NULL ==> vp_oom)
__CPROVER_ensures(__CPROVER_return_value != NULL ==> (
   __CPROVER_return_value->fin == ((h_b[0] & 0x80) != 0) && __CPROVER_return_value->rsv1 == ((h_b[0] & 0x40) != 0) &&
   __CPROVER_return_value->rsv2 == ((h_b[0] & 0x20) != 0) && __CPROVER_return_value->rsv3 == ((h_b[0] & 0x10) != 0) &&
   __CPROVER_return_value->opcode == (h_b[0] & 0x0f)))
__CPROVER_ensures(__CPROVER_return_value != NULL && h_complete ==> (
   *offset == h_off + h_hdr + h_plen && *offset <= length &&
   __CPROVER_return_value->payloadLength == h_plen && __CPROVER_return_value->applicationDataLength == h_plen &&
   __CPROVER_return_value->extensionDataLength == 0 &&
   __CPROVER_return_value->mask == ((h_b[1] & 0x80) != 0)))
__CPROVER_ensures(__CPROVER_return_value != NULL && h_complete && (h_b[1] & 0x80) ==> (
   (unsigned char)__CPROVER_return_value->maskingKey[0] == h_b[h_hdr-4] && (unsigned char)__CPROVER_return_value->maskingKey[1] == h_b[h_hdr-3] &&
   (unsigned char)__CPROVER_return_value->maskingKey[2] == h_b[h_hdr-2] && (unsigned char)__CPROVER_return_value->maskingKey[3] == h_b[h_hdr-1]))
__CPROVER_ensures(__CPROVER_return_value != NULL && h_complete && h_plen > 0 ==> __CPROVER_rw_ok(__CPROVER_return_value->payload, h_plen))
__CPROVER_ensures(__CPROVER_return_value != NULL && h_complete && gk < h_plen ==>
   (unsigned char)__CPROVER_return_value->payload[gk] == (unsigned char)(gold ^ ((h_b[1] & 0x80) ? h_b[h_hdr - 4 + gk % 4] : 0)))
__CPROVER_ensures(__CPROVER_return_value != NULL && !h_complete ==> *offset > length)
__CPROVER_ensures(__CPROVER_return_value != NULL && !h_complete ==> __CPROVER_return_value->payload == NULL)
;
#include "src/frame.c"

void harness_unmask(void) {
  wss_frame_t f; size_t n = nondet_size_t();
  __CPROVER_assume(n < MAXLEN);
  f.applicationDataLength = n; f.extensionDataLength = 0; f.payload = malloc(n);
  __CPROVER_assume(f.payload != NULL);
  vp_g1 = NULL; vp_g0 = NULL; gk = nondet_size_t();
  if (gk < n) { vp_g0 = f.payload + gk; gold = *vp_g0; }
  unmask(&f);
  REACH;
}

void harness_parse(void) {
  size_t length = nondet_size_t(), off = nondet_size_t();
  __CPROVER_assume(length < MAXLEN && off < length);
  char *p = malloc(length);
  __CPROVER_assume(p != NULL);
  h_off = off; h_len = length; for (int j = 0; j < 14; j++) h_b[j] = j < length - off ? (unsigned char)p[off + j] : 0;
  h_hdr = spec_hdr(h_b, length - off);
  h_complete = h_hdr <= length - off && spec_plen(h_b, length - off) <= length - off - h_hdr;
  h_plen = h_hdr <= length - off ? spec_plen(h_b, length - off) : 0;
  gk = nondet_size_t(); vp_g0 = NULL; vp_g1 = NULL; vp_oom = 0;
  if (h_complete && gk < h_plen) { vp_g0 = p + off + h_hdr + gk; gold = *vp_g0; }
  WSS_parse_frame(p, length, &off);
  REACH;
}
