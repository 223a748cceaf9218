/* P14: WSS_write against the queue contracts of P15. One arbitrary message per iteration stands for all of them: the body of the loop over the
 * consumed entries only touches the entry it is at. g_next: position (counted from the oldest queued entry at entry of the call) of the message whose
 * bytes are being written, g_sent of its bytes have been accepted by the socket so far. */
#include "mem.h"
#include <errno.h>
int vp_errno;
#undef errno
#define errno vp_errno
#include "alloc.h"
#include "worker.h"
#include "ringbuf.h"
#include "session.h"
#include "ssl.h"
#include "event.h"
#define REACH __CPROVER_assert(0, "VP_REACH")
#include "log.h"
#define log_log(...) ((void)0)
wss_server_t *h_srv; wss_session_t *h_s; wss_message_t *h_m; wss_message_t **h_tab; char *h_buf; size_t h_len; /* the message at hand */
const int k_READ = READ, k_WRITING = WRITING;
size_t g_total, g_base, g_head, g_next, g_len, g_off, g_tab; unsigned g_sent; _Bool g_closed, g_failed, g_again;
/* a message: non-empty, shorter than 4 GiB, no close frame before it in the queue has been written */
#define CLOSEF(m) ((m)->framed && ((m)->msg[0] & 0xF) == 8)
/* the entries in [off, off+return) are the oldest ones that are queued */
size_t ringbuf_consume(ringbuf_t *rb, size_t *off)
__CPROVER_requires(rb == h_s->ringbuf && !g_failed && !g_again && g_len == 0)
__CPROVER_assigns(*off, g_len, g_off, g_base)
__CPROVER_ensures(__CPROVER_return_value == g_len && g_base == g_head && g_len <= g_total - g_head && (g_total > g_head ==> g_len > 0) && *off == g_off && g_off <= g_tab && g_len <= g_tab - g_off)
;
/* only entries that were written completely leave the queue, unless a close frame was written before them */
void ringbuf_release(ringbuf_t *rb, size_t n)
__CPROVER_requires(rb == h_s->ringbuf && n <= g_len && (g_closed || g_head + n <= g_next) && (g_again ==> g_head + n == g_next))
__CPROVER_assigns(g_head, g_len)
__CPROVER_ensures(g_head == __CPROVER_old(g_head) + n && g_len == 0)
;
/* the socket is given exactly the bytes that are due next */
ssize_t write(int fd, const void *p, size_t n)
__CPROVER_requires(fd == h_s->fd && !g_closed && !g_failed && !g_again && g_next < g_total)
__CPROVER_requires(p == h_m->msg + g_sent && n == h_m->length - g_sent && n > 0 && __CPROVER_r_ok(p, n))
__CPROVER_assigns(g_sent, g_next, g_closed, g_failed, g_again, vp_errno)
__CPROVER_ensures(__CPROVER_return_value == -1 || (__CPROVER_return_value > 0 && (size_t)__CPROVER_return_value <= n && __CPROVER_return_value <= 0x7ffff000))
__CPROVER_ensures(__CPROVER_return_value == -1 ? g_sent == __CPROVER_old(g_sent) && g_next == __CPROVER_old(g_next) && !g_closed && g_again == (vp_errno == EAGAIN) && g_failed == (vp_errno != EAGAIN && vp_errno != EINTR)
  : !g_failed && !g_again && ((size_t)__CPROVER_return_value == n ? g_sent == 0 && g_next == __CPROVER_old(g_next) + 1 && g_closed == CLOSEF(h_m) : g_sent == __CPROVER_old(g_sent) + __CPROVER_return_value && g_next == __CPROVER_old(g_next) && !g_closed))
;
void WSS_write(wss_server_t *server, wss_session_t *session)
__CPROVER_requires(server == h_srv && session == h_s && g_head == 0 && g_next == 0 && g_sent == session->written)
__CPROVER_assigns(session->written, session->state, session->event, session->closing, h_m->length, h_m->framed, h_m->msg, __CPROVER_object_whole(h_buf), g_head, g_base, g_len, g_off, g_sent, g_next, g_closed, g_failed, g_again, vp_errno)
__CPROVER_ensures(!h_s->closing == !(g_closed || g_failed))
/* where a partial write stopped is remembered, and the caller is told to wait for the socket */
__CPROVER_ensures(g_again ==> !g_failed && !g_closed && h_s->written == g_sent && g_head == g_next && h_s->event == WRITE && h_s->state == WRITING)
/* otherwise nothing is left */
__CPROVER_ensures(!g_again && !g_failed ==> h_s->state == (g_closed ? CLOSING : IDLE) && h_s->written == 0 && g_head == g_total && (g_closed || g_next == g_total) && h_s->event == READ)
;
#define WSS_free(p) ((void)0)
#include "src/worker.c"
void h_write(void) {
  h_srv = malloc(sizeof *h_srv); h_s = calloc(1, sizeof *h_s); h_m = malloc(sizeof *h_m); h_len = nondet_size_t(); __CPROVER_assume(h_len > 0 && h_len < (1ul << 32)); h_buf = malloc(h_len);
  __CPROVER_assume(h_srv && h_s && h_m && h_buf);
  h_m->msg = h_buf; h_m->length = h_len; h_m->framed = nondet_bool();
  g_tab = nondet_size_t(); __CPROVER_assume(g_tab > 0 && g_tab < (1ul << 32)); h_tab = malloc(g_tab * sizeof *h_tab); __CPROVER_assume(h_tab); __CPROVER_array_set(h_tab, h_m);
  h_s->messages = h_tab; h_s->fd = nondet_int(); h_s->handshaked = 1; h_s->state = WRITING; h_s->event = READ; h_s->written = nondet_uint(); g_sent = h_s->written;
  g_total = nondet_size_t(); __CPROVER_assume(g_total < (1ul << 32)); __CPROVER_assume(g_sent == 0 || (g_total > 0 && g_sent < h_len));
  g_head = g_next = g_len = 0; g_closed = g_failed = g_again = 0;
  WSS_write(h_srv, h_s); REACH; }
