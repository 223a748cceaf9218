/* P26: src/message.c. Ghosts: g_jobs the jobs this call accounts for, g_lock depth of the session lock taken here, g_q entries put into the queue. The state of
 * the session may be changed by other threads whenever its lock is not held. */
#include "mem.h"
#include <errno.h>
#include <time.h>
#include "alloc.h"
#include "message.h"
#include "server.h"
#include "worker.h"
#include "ringbuf.h"
#include "session.h"
#include "event.h"
#include "log.h"
#define log_log(...) ((void)0)
#define REACH __CPROVER_assert(0, "VP_REACH")
wss_servers_t servers;
wss_server_t *h_srv, *h_srvs; wss_session_t *h_s; wss_header_t *h_h; wss_frame_t **h_frames; size_t h_count; wss_message_t *h_m; char *h_out; size_t h_outlen; ssize_t h_cap;
int h_fd; _Bool f_str, f_mem, h_known; size_t h_exts;
struct { ssize_t off; size_t of, ofr, freed; int jobs, lock, q; unsigned write, pollw; wss_session_state_t seen; _Bool out, mes, arr; } G;
#define g_jobs G.jobs
#define g_lock G.lock
#define g_q G.q
#define g_out G.out
#define g_mes G.mes
#define g_arr G.arr
#define g_off G.off
#define g_of G.of
#define g_ofr G.ofr
#define g_freed G.freed
#define g_write G.write
#define g_pollw G.pollw
#define g_seen G.seen
wss_opcode_t h_op; char *h_msg; uint64_t h_len; wss_config_t *h_cfg; wss_server_t *h_use;
const int k_CLOSING = CLOSING;
wss_error_t WSS_session_jobs_dec(wss_session_t *s)
__CPROVER_requires(s == h_s && g_jobs == 1) __CPROVER_assigns(g_jobs) __CPROVER_ensures(g_jobs == 0)
;
wss_error_t WSS_session_jobs_inc(wss_session_t *s)
__CPROVER_requires(s == h_s && g_jobs == 0) __CPROVER_assigns(g_jobs) __CPROVER_ensures(g_jobs == 1)
;
/* contracts of the C library, written as code: the lock protects the state, another thread may have changed it before we got the lock */
#define A_(c) __CPROVER_assert(c, "library precondition: " #c)
int pthread_mutex_lock(pthread_mutex_t *m) { A_(m == &h_s->lock && g_lock == 0 && g_jobs == 1); g_lock = 1; unsigned t = nondet_uint(); __CPROVER_assume(t <= CONNECTING); g_seen = t; h_s->state = g_seen; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { A_(m == &h_s->lock && g_lock == 1); g_lock = 0; return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { A_(g_lock == 0 && a->tv_sec >= 0 && a->tv_nsec >= 0 && a->tv_nsec < 1000000000); return nondet_int(); }
size_t WSS_stringify_frames(wss_frame_t **frames, size_t n, char **out)
__CPROVER_requires(frames == (h_count ? h_frames : NULL) && n == h_count && (h_exts == 0 || (g_of == h_exts && g_ofr == 0)) && !g_out)
__CPROVER_assigns(*out, g_out)
__CPROVER_ensures(g_out == f_str && (f_str ? __CPROVER_return_value == h_outlen && __CPROVER_pointer_equals(*out, h_out) : __CPROVER_return_value == 0 && __CPROVER_pointer_equals(*out, (char *)NULL)))
;
/* contract of WSS_malloc (proved in P18), written as code */
void *WSS_malloc(size_t n) { A_(n == sizeof(wss_message_t) && !g_mes); g_mes = f_mem; return f_mem ? h_m : NULL; }
ssize_t ringbuf_acquire(ringbuf_t *rb, ringbuf_worker_t **w, size_t n)
__CPROVER_requires(rb == h_s->ringbuf && *w == NULL && n == 1 && g_off == -2)
__CPROVER_assigns(g_off) __CPROVER_ensures(__CPROVER_return_value == g_off && g_off >= -1 && g_off < h_cap)
;
/* what enters the queue is the one buffer that holds the serialised frames */
void ringbuf_produce(ringbuf_t *rb, ringbuf_worker_t **w)
__CPROVER_requires(rb == h_s->ringbuf && g_off >= 0 && g_q == 0 && h_s->messages[g_off] == h_m && g_mes && g_out && h_m->msg == h_out && h_m->length == h_outlen && h_m->framed && g_lock == 0)
__CPROVER_assigns(g_q) __CPROVER_ensures(g_q == 1)
;
void WSS_write(wss_server_t *server, wss_session_t *s)
__CPROVER_requires(server == h_srv && s == h_s && g_lock == 1 && g_jobs == 1 && g_q == 1 && g_write == 0 && g_seen == IDLE && s->state == WRITING)
__CPROVER_assigns(g_write, s->event, s->closing, s->state) __CPROVER_ensures(g_write == 1 && s->event <= 2)
;
wss_error_t WSS_poll_set_write(wss_server_t *server, int fd)
__CPROVER_requires(server == h_srv && fd == h_s->fd && g_jobs == 1) __CPROVER_assigns(g_pollw) __CPROVER_ensures(g_pollw == __CPROVER_old(g_pollw) + 1)
;
void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_t frames_count)
__CPROVER_requires(serv == h_srv && sess == h_s && frames == (h_count ? h_frames : NULL) && frames_count == h_count && g_jobs == 1 && g_lock == 0 && g_q == 0)
#ifdef SEND
__CPROVER_assigns(g_jobs, g_q)
#else
__CPROVER_assigns(__CPROVER_object_whole(&G), h_s->state, h_s->event, h_s->closing, __CPROVER_object_whole(h_m), __CPROVER_object_whole(h_s->messages))
/* all or nothing */
__CPROVER_ensures(g_q == (f_str && f_mem && g_off >= 0) && (g_q == 0 ==> !g_out && !g_mes))
/* written here, or by whoever is waiting for the socket, or never because the connection closes */
__CPROVER_ensures(g_q == 1 ==> (g_seen == IDLE ? g_write == 1 && (h_s->event == WRITE ==> g_pollw > 0) : (g_seen == WRITING || g_seen == CLOSING) && g_write == 0))
#endif
__CPROVER_ensures(g_jobs == 0 && g_lock == 0 && g_q <= 1)
;
wss_session_t *WSS_session_find(int fd)
__CPROVER_requires(fd == h_fd) __CPROVER_assigns()
__CPROVER_ensures(h_known ? __CPROVER_pointer_equals(__CPROVER_return_value, h_s) : __CPROVER_pointer_equals(__CPROVER_return_value, (wss_session_t *)NULL))
;
size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *message, size_t n, wss_frame_t ***fs)
__CPROVER_requires(config == h_cfg && opcode == h_op && message == h_msg && n == h_len && !g_arr) __CPROVER_assigns(*fs, g_arr)
__CPROVER_ensures(__CPROVER_return_value == h_count && g_arr == (h_count > 0) && (h_count > 0 ? __CPROVER_pointer_equals(*fs, h_frames) : __CPROVER_pointer_equals(*fs, (wss_frame_t **)NULL)))
;
void WSS_free_frame(wss_frame_t *f)
__CPROVER_requires(g_arr && g_freed < h_count && f == h_frames[g_freed]) __CPROVER_assigns(g_freed) __CPROVER_ensures(g_freed == __CPROVER_old(g_freed) + 1)
;
void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t message_length)
__CPROVER_requires(fd == h_fd && opcode == h_op && message == h_msg && message_length == h_len && g_jobs == 0)
__CPROVER_assigns(__CPROVER_object_whole(&G))
__CPROVER_ensures(g_jobs == 0 && !g_arr && g_freed == (h_known && h_s->handshaked ? h_count : 0) && (g_q ==> h_known && h_s->handshaked))
;
/* every frame of the message passes every extension, the message as a whole first */
static void st_outframes(int fd, wss_frame_t **f, size_t n) { __CPROVER_assert(fd == h_s->fd && f == h_frames && n == h_count && g_ofr == 0 && !g_out, "the message passes the extension"); g_of++; }
static void st_outframe(int fd, wss_frame_t *f) { __CPROVER_assert(fd == h_s->fd && g_of > 0 && g_ofr < h_count && f == h_frames[g_ofr] && !g_out, "the frames pass the extension in order"); g_ofr++; if (g_ofr == h_count) g_ofr = 0; }
#ifdef NDEBUG
#undef WSS_free
#endif
void WSS_free(void **p) {
  if (*p == NULL) return;
  if (*p == (void *)h_out) { __CPROVER_assert(g_out && g_q == 0, "buffer freed once, not while queued"); g_out = 0; }
  else if (*p == (void *)h_m) { __CPROVER_assert(g_mes && !g_out && g_q == 0, "message freed once, after its buffer, not while queued"); g_mes = 0; }
  else { __CPROVER_assert(*p == (void *)h_frames && g_arr && g_freed == h_count, "the frames are freed before their list, once"); g_arr = 0; }
  *p = NULL; }
#include "src/message.c"
static void state_(void) {
  h_srv = malloc(sizeof *h_srv); h_srvs = malloc(sizeof *h_srvs); h_s = malloc(sizeof *h_s); h_h = malloc(sizeof *h_h); h_m = malloc(sizeof *h_m); h_outlen = nondet_size_t(); __CPROVER_assume(h_outlen > 0 && h_outlen < (1ul << 40)); h_out = malloc(1);
  h_count = nondet_size_t(); __CPROVER_assume(h_count < (1ul << 32)); h_frames = malloc((h_count + 1) * sizeof *h_frames); h_cap = nondet_uint(); __CPROVER_assume(h_cap > 0); wss_message_t **tab = malloc(h_cap * sizeof *tab);
  __CPROVER_assume(h_srv && h_srvs && h_s && h_h && h_m && h_out && h_frames && tab);
  h_s->messages = tab; h_s->header = h_h; h_fd = nondet_int(); h_s->fd = h_fd; h_exts = 0; h_h->ws_extensions = NULL; h_h->ws_extensions_count = 0;
  f_str = nondet_bool(); f_mem = nondet_bool(); g_out = g_mes = g_arr = 0; g_off = -2; g_of = g_ofr = g_freed = 0; g_write = g_pollw = 0; g_q = g_lock = 0; }
void h_send_frames(void) {
  state_(); __CPROVER_assume(h_count > 0 || !f_str);
#ifdef EXTS
  h_exts = nondet_uint(); __CPROVER_assume(h_exts > 0 && h_count > 0); wss_extension_t *e = malloc(sizeof *e); wss_ext_t *x = malloc(sizeof *x); wss_ext_t **xs = malloc(h_exts * sizeof *xs); __CPROVER_assume(e && x && xs);
  e->outframes = st_outframes; e->outframe = st_outframe; x->ext = e; __CPROVER_array_set(xs, x); h_h->ws_extensions = xs; h_h->ws_extensions_count = h_exts;
#endif
  g_jobs = 1; WSS_message_send_frames(h_srv, h_s, h_count ? h_frames : NULL, h_count); REACH; }
void h_send(void) {
  state_(); h_known = nondet_bool(); h_s->handshaked = nondet_bool(); h_s->ssl_connected = nondet_bool(); h_s->ssl = nondet_bool() ? h_h : NULL; servers.http = h_srv; servers.https = h_srvs; h_cfg = malloc(sizeof *h_cfg); __CPROVER_assume(h_cfg);
  if (h_s->ssl && h_s->ssl_connected) { wss_server_t *t = h_srv; h_srv = h_srvs; h_srvs = t; } h_srv->config = h_cfg; h_op = nondet_uint(); h_len = nondet_size_t(); h_msg = malloc(1); g_jobs = 0;
  WSS_message_send(h_fd, h_op, h_msg, h_len); REACH; }
