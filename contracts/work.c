/* WSS_work: one event is handled under the session's lock and job count, and its outcome is acted on (P14, P28). */
#include "mem.h"
#include <errno.h>
int vp_errno;
#undef errno
#define errno vp_errno
#include "alloc.h"
#include "worker.h"
#include "ringbuf.h"
#include "session.h"
#include "ssl.h"
#include "event.h"
#define REACH __CPROVER_assert(0, "VP_REACH")
#include "log.h"
#define log_log(...) ((void)0)
wss_server_state_t state;
wss_server_t *h_srv; wss_config_t *h_cfg; wss_session_t *h_s; int h_fd, g_jobs, g_lock; _Bool h_known, g_late; wss_session_state_t h_state, h_ev;
unsigned g_write, g_read, g_hs, g_disc, g_pollr, g_pollw, g_conn;
/* the session may be used: locked, counted, not given away */
#define MINE (g_lock == 1 && g_jobs == 1 && !g_disc && !g_pollr && !g_pollw)
wss_session_t *WSS_session_find(int fd)
__CPROVER_requires(fd == h_fd)
__CPROVER_assigns()
__CPROVER_ensures(h_known ? __CPROVER_pointer_equals(__CPROVER_return_value, h_s) : __CPROVER_pointer_equals(__CPROVER_return_value, (wss_session_t *)NULL))
;
wss_error_t WSS_session_jobs_inc(wss_session_t *s)
__CPROVER_requires(s == h_s && g_jobs == 0 && !g_disc) __CPROVER_assigns(g_jobs) __CPROVER_ensures(g_jobs == 1)
;
wss_error_t WSS_session_jobs_dec(wss_session_t *s)
__CPROVER_requires(s == h_s && g_jobs == 1 && !g_disc) __CPROVER_assigns(g_jobs) __CPROVER_ensures(g_jobs == 0)
;
int pthread_mutex_lock(pthread_mutex_t *m)
__CPROVER_requires(m == &h_s->lock && g_lock == 0 && !g_disc) __CPROVER_assigns(g_lock) __CPROVER_ensures(g_lock == 1 && __CPROVER_return_value == 0)
;
int pthread_mutex_unlock(pthread_mutex_t *m)
__CPROVER_requires(m == &h_s->lock && g_lock == 1 && !g_disc) __CPROVER_assigns(g_lock) __CPROVER_ensures(g_lock == 0 && __CPROVER_return_value == 0)
;
void WSS_write(wss_server_t *server, wss_session_t *session)
__CPROVER_requires(server == h_srv && session == h_s && MINE && h_s->state == WRITING && h_s->event == READ)
__CPROVER_assigns(g_write, session->event, session->closing, session->state)
__CPROVER_ensures(g_write == __CPROVER_old(g_write) + 1 && session->event <= 2)
;
void WSS_read(wss_server_t *server, wss_session_t *session)
__CPROVER_requires(server == h_srv && session == h_s && MINE && (h_s->state == READING || h_s->state == CONNECTING) && h_s->event == NONE)
__CPROVER_assigns(g_read, session->event, session->closing, session->state)
__CPROVER_ensures(g_read == __CPROVER_old(g_read) + 1 && session->event <= 2)
;
void WSS_ssl_handshake(wss_server_t *server, wss_session_t *session)
__CPROVER_requires(server == h_srv && session == h_s && MINE) __CPROVER_assigns(g_hs) __CPROVER_ensures(g_hs == __CPROVER_old(g_hs) + 1)
;
void WSS_connect(wss_server_t *server)
__CPROVER_requires(server == h_srv) __CPROVER_assigns(g_conn) __CPROVER_ensures(g_conn == __CPROVER_old(g_conn) + 1)
;
/* the session is gone (or belongs to whoever closes it) afterwards */
void WSS_disconnect(wss_server_t *server, wss_session_t *session)
__CPROVER_requires(server == h_srv && session == h_s && g_jobs == 0 && g_lock == 0 && !g_disc)
__CPROVER_assigns(g_disc, __CPROVER_object_whole(h_s))
__CPROVER_ensures(g_disc == 1)
;
wss_error_t WSS_poll_set_write(wss_server_t *server, int fd)
__CPROVER_requires(server == h_srv && fd == h_fd && g_jobs == 0 && g_lock == 0 && !g_disc) __CPROVER_assigns(g_pollw) __CPROVER_ensures(g_pollw == __CPROVER_old(g_pollw) + 1)
;
wss_error_t WSS_poll_set_read(wss_server_t *server, int fd)
__CPROVER_requires(server == h_srv && fd == h_fd && g_jobs == 0 && g_lock == 0 && !g_disc) __CPROVER_assigns(g_pollr) __CPROVER_ensures(g_pollr == __CPROVER_old(g_pollr) + 1)
;
long o_sec, o_nsec;
int clock_gettime(clockid_t c, struct timespec *t)
__CPROVER_requires(c == CLOCK_MONOTONIC && t != NULL) __CPROVER_assigns(*t, g_late)
__CPROVER_ensures(0 <= t->tv_sec && t->tv_sec < (1l << 40) && 0 <= t->tv_nsec && t->tv_nsec < 1000000000)
__CPROVER_ensures(g_late == (h_state == WRITING ? h_cfg->timeout_write >= 0 : h_state == READING ? h_cfg->timeout_read >= 0 : 0)) /* whether it is late is not part of these contracts */
;
void WSS_work(void *args)
__CPROVER_requires(g_jobs == 0 && g_lock == 0)
__CPROVER_assigns(g_jobs, g_lock, g_write, g_read, g_hs, g_disc, g_pollr, g_pollw, g_conn, g_late, __CPROVER_object_whole(h_s))
__CPROVER_ensures(g_jobs == 0 && g_lock == 0)
__CPROVER_ensures(h_ev == CONNECTING ==> g_conn == 1 && !g_write && !g_read && !g_disc)
__CPROVER_ensures(h_ev != CONNECTING && !h_known ==> !g_conn && !g_write && !g_read && !g_disc && !g_pollr && !g_pollw)
/* closed, or armed for exactly one kind of event, or left alone: never two of them */
__CPROVER_ensures(g_disc + g_pollr + g_pollw <= 1 && g_write + g_read + g_hs <= 1)
__CPROVER_ensures(h_known && h_ev != CONNECTING && !g_disc && !g_hs ==> !h_s->closing && g_pollw == (h_s->event == WRITE) && g_pollr == (h_s->event == READ))
/* what is done: an unfinished write goes on first, a session that is to close closes, otherwise the event decides */
__CPROVER_ensures(h_known && h_ev != CONNECTING && (h_state == WRITING || (h_state == IDLE && h_ev == WRITING)) && !(h_state == WRITING && g_late && !g_write) ==> g_write == 1 && !g_read)
__CPROVER_ensures(h_known && h_ev != CONNECTING && (h_state == READING || (h_state == IDLE && h_ev == READING)) && !(h_state == READING && g_late && !g_read) ==> g_read == 1 && !g_write)
__CPROVER_ensures(h_known && h_ev != CONNECTING && (h_state == CLOSING || (h_state == IDLE && h_ev == CLOSING)) ==> g_disc == 1 && !g_write && !g_read)
__CPROVER_ensures(h_known && h_ev != CONNECTING && (h_state == WRITING || h_state == READING) && !g_write && !g_read ==> g_disc == 1)
;
#define WSS_free(p) ((void)0)
#include "src/worker.c"
void h_work(void) {
  h_srv = malloc(sizeof *h_srv); h_cfg = malloc(sizeof *h_cfg); h_s = malloc(sizeof *h_s); wss_thread_args_t *a = malloc(sizeof *a); __CPROVER_assume(h_srv && h_cfg && h_s && a);
  h_srv->config = h_cfg; h_srv->ssl_ctx = nondet_bool() ? h_srv : NULL; h_fd = nondet_int(); h_s->fd = h_fd; h_known = nondet_bool();
  a->fd = h_fd; a->server = h_srv; a->state = nondet_uint(); __CPROVER_assume(a->state <= CONNECTING); h_ev = a->state; h_state = h_s->state; __CPROVER_assume(h_state <= CONNECTING);
  __CPROVER_assume(h_s->alive.tv_sec >= 0 && h_s->alive.tv_sec < (1l << 40) && h_s->alive.tv_nsec >= 0 && h_s->alive.tv_nsec < 1000000000); o_sec = h_s->alive.tv_sec; o_nsec = h_s->alive.tv_nsec;
  __CPROVER_assume(h_ev != IDLE);
  g_jobs = g_lock = g_write = g_read = g_hs = g_disc = g_pollr = g_pollw = g_conn = 0; g_late = 0;
  WSS_work(a); REACH; }
