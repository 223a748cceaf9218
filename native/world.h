/* A server without a network for the real src/worker.c, session.c, message.c, frame.c, ringbuf.c ...: descriptors are byte queues whose
 * reads and writes are split, delayed and failed as the case says; the event loop only records what it is asked to wait for. */
#define VP_FAULTS
#include "vp.h"
#undef read
#undef write
#undef close
#include <setjmp.h>
#include <errno.h>
#include "server.h"
#include "session.h"
#include "worker.h"
#include "event.h"
#include "header.h"
#include "subprotocols.h"
#include "extensions.h"
#include "ssl.h"
#define W_BASE 1000
#define W_NFD 4
typedef struct { int open, closed; const uint8_t *in; size_t in_len, in_pos; int in_eof; uint8_t *out; size_t out_len, out_cap; int poll_read, poll_write, removed; } w_fd;
static w_fd W[W_NFD]; static jmp_buf W_stuck; static const char *W_why; static int W_sleeps;
/* what the next read or write does, taken from the case: 0 all, 1..250 that many bytes, 251 EINTR, 252 EAGAIN, 253 error, 254 error (pipe) 255 all */
static const uint8_t *W_plan; static size_t W_plan_len, W_plan_pos; static int W_hard, W_eagain;
static unsigned w_next(void) { return W_plan_pos < W_plan_len ? W_plan[W_plan_pos++] : 0; }
static w_fd *w_at(int fd) { return fd >= W_BASE && fd < W_BASE + W_NFD ? &W[fd - W_BASE] : NULL; }
ssize_t vp_read(int fd, void *b, size_t n) {
  w_fd *f = w_at(fd); if (!f || f->closed) { errno = EBADF; W_why = "reads from a descriptor that is not its own"; longjmp(W_stuck, 2); }
  size_t have = f->in_len - f->in_pos; unsigned p = w_next();
  if (p == 251) { errno = EINTR; return -1; }
  if (p == 253 || p == 254) { W_hard = 1; errno = p == 253 ? ECONNRESET : EIO; return -1; }
  if (!have || p == 252) { errno = EAGAIN; return -1; }
  size_t k = p == 0 || p == 255 ? n : p; if (k > n) k = n; if (k > have) k = have;
  memcpy(b, f->in + f->in_pos, k); f->in_pos += k; return k; }
ssize_t vp_write(int fd, const void *b, size_t n) {
  w_fd *f = w_at(fd); if (!f || f->closed) { errno = EBADF; W_why = "writes to a descriptor that is not its own"; longjmp(W_stuck, 2); }
  unsigned p = w_next();
  if (p == 251) { errno = EINTR; return -1; }
  if (p == 252) { W_eagain = 1; errno = EAGAIN; return -1; }
  if (p == 253 || p == 254) { W_hard = 1; errno = p == 253 ? ECONNRESET : EPIPE; return -1; }
  size_t k = p == 0 || p == 255 ? n : p; if (k > n) k = n;
  if (f->out_len + k > f->out_cap) { f->out_cap = (f->out_len + k) * 2 + 64; f->out = realloc(f->out, f->out_cap); }
  memcpy(f->out + f->out_len, b, k); f->out_len += k; return k; }
int vp_close(int fd) { w_fd *f = w_at(fd); if (!f || f->closed) { W_why = "closes a descriptor twice or one that is not its own"; longjmp(W_stuck, 2); } f->closed = 1; return 0; }
int vp_nanosleep(const struct timespec *a, struct timespec *b) { if (++W_sleeps > 20) { W_why = "waits for another thread although no other thread is at work"; longjmp(W_stuck, 1); } return 0; }
int vp_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { W_why = "waits forever for the jobs of the session"; longjmp(W_stuck, 1); }
wss_error_t WSS_poll_set_write(wss_server_t *s, int fd) { w_fd *f = w_at(fd); if (f) { f->poll_write = 1; f->poll_read = 0; } return WSS_SUCCESS; }
wss_error_t WSS_poll_set_read(wss_server_t *s, int fd) { w_fd *f = w_at(fd); if (f) { f->poll_read = 1; f->poll_write = 0; } return WSS_SUCCESS; }
wss_error_t WSS_poll_remove(wss_server_t *s, int fd) { w_fd *f = w_at(fd); if (f) { f->removed++; f->poll_read = f->poll_write = 0; } return WSS_SUCCESS; }
wss_error_t WSS_socket_non_blocking(int fd) { return WSS_SUCCESS; }
void log_log(int level, const char *file, int line, const char *fmt, ...) {}
wss_servers_t servers; wss_server_state_t state;
static wss_server_t W_srv; static wss_config_t W_cfg;
/* subprotocols record what they are told */
typedef struct { int kind, fd, op; char *data; size_t len; } w_ev; /* kind 1 connect, 2 message, 3 close */
static w_ev W_ev[4096]; static size_t W_nev; static void (*W_onmsg)(int, wss_opcode_t, char *, size_t);
static void w_ev_add(int kind, int fd, int op, const char *d, size_t n) { if (W_nev < 4096) { w_ev *e = &W_ev[W_nev++]; e->kind = kind; e->fd = fd; e->op = op; e->len = n; e->data = malloc(n + 1); if (n) memcpy(e->data, d, n); e->data[n] = 0; } }
static void w_connect(int fd, char *ip, int port, char *path, char *cookies) { w_ev_add(1, fd, 0, path, strlen(path)); }
static void w_message(int fd, wss_opcode_t op, char *m, size_t n) { if (m[n] != 0) { W_why = "message handed to the subprotocol is not NUL-terminated"; longjmp(W_stuck, 2); } w_ev_add(2, fd, op, m, n); if (W_onmsg) W_onmsg(fd, op, m, n); }
static void w_close(int fd) { w_ev_add(3, fd, 0, "", 0); }
static wss_subprotocol_t W_echo = { .name = "echo", .connect = w_connect, .message = w_message, .close = w_close }, W_chat = { .name = "chat", .connect = w_connect, .message = w_message, .close = w_close };
#ifndef W_OWN_FIND
wss_subprotocol_t *WSS_find_subprotocol(char *n) { return !strcmp(n, "echo") ? &W_echo : !strcmp(n, "chat") ? &W_chat : NULL; }
wss_extension_t *WSS_find_extension(char *n) { return NULL; }
#endif
static void w_reset(void) {
  static int once; if (!once++) { WSS_session_init_lock(); }
  for (int i = 0; i < W_NFD; i++) { free(W[i].out); memset(&W[i], 0, sizeof W[i]); }
  for (size_t i = 0; i < W_nev; i++) free(W_ev[i].data);
  W_nev = 0; W_why = NULL; W_sleeps = W_hard = W_eagain = 0; W_plan_pos = W_plan_len = 0; vp_fault_at = -1; vp_faulted = 0; W_onmsg = NULL;
  memset(&W_cfg, 0, sizeof W_cfg); memset(&W_srv, 0, sizeof W_srv);
  W_cfg.size_ringbuffer = 128; W_cfg.pool_workers = 4; W_cfg.size_buffer = 256; W_cfg.size_frame = 8192; W_cfg.max_frames = 64; W_cfg.size_header = 1024; W_cfg.size_uri = 256; W_cfg.size_payload = 4096;
  W_cfg.timeout_read = W_cfg.timeout_write = -1; W_srv.config = &W_cfg; servers.http = servers.https = &W_srv; state.state = RUNNING; }
/* a session as WSS_connect leaves it; handshaked: as the handshake leaves it */
static wss_session_t *w_session(int fd, int handshaked) {
  wss_session_t *s = WSS_session_add(fd, "10.0.0.1", 4242); if (!s) return NULL;
  w_at(fd)->open = 1; size_t sz; ringbuf_get_sizes(0, W_cfg.pool_workers + 1, &sz, NULL); s->ringbuf = WSS_malloc(sz); s->messages = WSS_malloc(W_cfg.size_ringbuffer * sizeof *s->messages); s->messages_count = W_cfg.size_ringbuffer;
  ringbuf_setup(s->ringbuf, 0, W_cfg.pool_workers + 1, W_cfg.size_ringbuffer); s->state = IDLE; s->event = NONE; clock_gettime(CLOCK_MONOTONIC, &s->alive);
  if (handshaked) { s->handshaked = true; s->header = WSS_malloc(sizeof *s->header); s->header->ws_protocol = &W_echo; s->header->ws_type = RFC6455; }
  return s; }
static int w_put(wss_session_t *s, const char *d, size_t n, int framed) { /* queue a message, as write_internal does */
  ringbuf_worker_t *w = NULL; ssize_t off = ringbuf_acquire(s->ringbuf, &w, 1); if (off < 0) return 0;
  wss_message_t *m = WSS_malloc(sizeof *m); m->msg = WSS_malloc(n ? n : 1); memcpy(m->msg, d, n); m->length = n; m->framed = framed; s->messages[off] = m; ringbuf_produce(s->ringbuf, &w); return 1; }
static void w_work(int fd, wss_session_state_t st) { long keep = vp_fault_at; vp_fault_at = -1; wss_thread_args_t *a = WSS_malloc(sizeof *a); vp_fault_at = keep; a->fd = fd; a->state = st; a->server = &W_srv; w_at(fd)->poll_read = w_at(fd)->poll_write = 0; WSS_work(a); }
