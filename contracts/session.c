/* P17: src/session.c. The hash table (uthash, a header of macros) is represented by its meaning as a map with one arbitrary watched descriptor h_fd; whenever the lock of
 * the table or of a counter is acquired the other threads may have done anything to what it protects. What a function releases is counted pointer by pointer. */
#include "mem.h"
#include <pthread.h>
#include "error.h"
#include "session.h"
#define REACH __CPROVER_assert(0, "VP_REACH")
#define A_(c, t) __CPROVER_assert(c, t)
#undef HASH_FIND_INT
#undef HASH_ADD_INT
#undef HASH_DEL
#undef HASH_ITER
struct { int rw, job, dcl, ses, fails, delta, o_jobs, sig, fdclosed, closes, live, cbs, inits; unsigned hdr, ssl, ip, pong, pay, fra, msgs, ring, self; size_t nfr, nmsg; _Bool waited, slot, msgfree, o_dc, seen, over, added, removed; wss_session_t *ent, *o_ent; } G;
int h_fd, h_extn; wss_session_t *h_s, *h_o; char *h_ip, *h_ipp, *h_pong, *h_pay; size_t h_len, h_k, h_nfr, h_nmsgs, h_hj, h_null; wss_frame_t **h_fra, *h_fr; wss_header_t *h_hdr; wss_message_t **h_msgs, *h_msg; ringbuf_t *h_ring; void *h_sub, *h_sslp; _Bool f_lock, h_nul;
#define TABLE(m) ((void *)(m) == (void *)&lock)
extern pthread_rwlock_t lock;
static wss_session_t *vp_find(int k) { A_(G.rw >= 1, "the table is only searched under its lock"); if (k == h_fd) return G.ent; return nondet_bool() ? NULL : h_o; }
static void vp_add(int k, wss_session_t *s) { A_(G.rw == 2, "the table is only changed under the write lock"); A_(s->fd == k && k == h_fd, "added under its descriptor"); A_(G.ent == NULL, "only an unused descriptor is added"); G.ent = s; G.added = 1; }
static void vp_del(wss_session_t *s) { A_(G.rw == 2, "the table is only changed under the write lock"); A_(!G.self && s == h_s && s->fd == h_fd && G.ent == s && !G.removed, "exactly the session being deleted is removed from the table, once"); G.ent = NULL; G.removed = 1; }
#define HASH_FIND_INT(h, k, o) do { (o) = vp_find(*(k)); } while (0)
#define HASH_ADD_INT(h, f, a) vp_add((a)->f, (a))
#define HASH_DEL(h, d) vp_del(d)
/* visits every entry once: the watched one when it is its turn, any number of others before and after */
static wss_session_t *vp_next(void) { if (G.over) return NULL; if (G.ent != NULL && !G.seen && nondet_bool()) { G.seen = 1; return G.ent; } if ((G.seen || G.ent == NULL) && nondet_bool()) { G.over = 1; return NULL; } return h_o; }
#define HASH_ITER(hh, h, e, t) for ((e) = vp_next(), (t) = NULL; (e) != NULL; (e) = vp_next())
static void others(void) { unsigned t = nondet_uint(); G.ent = G.o_ent = nondet_bool() ? NULL : h_s; }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { A_(TABLE(m) && G.rw == 0, "the lock of the table is not taken twice"); if (f_lock && nondet_bool()) { G.fails = 1; return 35; } G.rw = 1; others(); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { A_(TABLE(m) && G.rw == 0, "the lock of the table is not taken twice"); if (f_lock && nondet_bool()) { G.fails = 1; return 35; } G.rw = 2;
#ifndef DELETE
  others();
#endif
  return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { A_(TABLE(m) && G.rw != 0, "the lock of the table is released by who holds it"); G.rw = 0; return 0; }
int pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *a) { return nondet_bool() ? 12 : 0; } int pthread_rwlock_destroy(pthread_rwlock_t *m) { return nondet_bool() ? 16 : 0; }
int pthread_mutexattr_init(pthread_mutexattr_t *a) { return 0; } int pthread_mutexattr_settype(pthread_mutexattr_t *a, int k) { A_(G.live == 1, "the session is still there"); return nondet_bool() ? 22 : 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t *a) { A_(!G.self, "the session is still there"); return nondet_bool() ? 22 : 0; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { A_(G.live == 1, "the session is still there"); if (nondet_bool()) return 11; G.inits++; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { A_(!G.self, "the session is still there"); return nondet_bool() ? 16 : 0; }
#ifdef COUNT
/* the counters */
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (m == &h_s->lock_jobs) { A_(!G.job, "not taken twice"); if (f_lock && nondet_bool()) { G.fails = 1; return 35; } G.job = 1; int j = nondet_int(); __CPROVER_assume(j >= 0 && j < 0x7fffffff && j + G.delta >= 0); h_s->jobs = G.o_jobs = j; return 0; }
  A_(m == &h_s->lock_disconnecting && !G.dcl, "the lock that protects what is changed, once"); if (f_lock && nondet_bool()) { G.fails = 1; return 35; } G.dcl = 1; h_s->disconnecting = G.o_dc = nondet_bool(); return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (m == &h_s->lock_jobs) { A_(G.job == 1, "released by who holds it"); A_(h_s->jobs == G.o_jobs + G.delta, "the counter changes by exactly one job"); A_(h_s->jobs != 0 || G.delta != -1 || G.sig, "who waits for the last job is told"); G.job = 0; return 0; }
  A_(m == &h_s->lock_disconnecting && G.dcl == 1, "released by who holds it"); A_(h_s->disconnecting, "from now on it is disconnecting"); G.dcl = 0; return 0; }
int pthread_cond_signal(pthread_cond_t *c) { A_(c == &h_s->cond_jobs && G.job, "signals under the lock"); G.sig = 1; return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { return pthread_cond_signal(c); }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { A_(c == &h_s->cond_jobs && m == &h_s->lock_jobs && G.job && h_s->jobs > 0, "waits only while jobs are counted"); int j = nondet_int(); __CPROVER_assume(j >= 0); h_s->jobs = G.o_jobs = j; return 0; }
wss_error_t WSS_session_jobs_inc(wss_session_t *session)
__CPROVER_requires(session == h_s && !G.job && !G.fails && G.delta == 1) __CPROVER_assigns(G, h_s->jobs) __CPROVER_ensures(!G.job && (__CPROVER_return_value == WSS_SUCCESS) == !G.fails && (G.fails || h_s->jobs == G.o_jobs + 1))
;
wss_error_t WSS_session_jobs_dec(wss_session_t *session)
__CPROVER_requires(session == h_s && !G.job && !G.fails && G.delta == -1 && !G.sig) __CPROVER_assigns(G, h_s->jobs) __CPROVER_ensures(!G.job && (__CPROVER_return_value == WSS_SUCCESS) == !G.fails && (G.fails || (h_s->jobs == G.o_jobs - 1 && h_s->jobs >= 0)))
;
wss_error_t WSS_session_jobs_wait(wss_session_t *session)
__CPROVER_requires(session == h_s && !G.job && !G.fails && G.delta == 0) __CPROVER_assigns(G, h_s->jobs) __CPROVER_ensures(!G.job && (__CPROVER_return_value == WSS_SUCCESS) == !G.fails && (G.fails || h_s->jobs == 0))
;
/* of all callers exactly one, the first, is told that the session was not yet disconnecting */
wss_error_t WSS_session_is_disconnecting(wss_session_t *session, bool *dc)
__CPROVER_requires(session == h_s && !G.dcl && !G.fails) __CPROVER_assigns(G, h_s->disconnecting, *dc) __CPROVER_ensures(!G.dcl && (__CPROVER_return_value == WSS_SUCCESS) == !G.fails && *dc == (G.fails || G.o_dc))
;
#else
int pthread_mutex_unlock(pthread_mutex_t *m) { A_(!G.self, "the session is still there"); return nondet_bool(); }
#endif
int close(int fd) { A_(fd == h_fd && !G.self, "the descriptor of the session is closed"); G.fdclosed++; return nondet_bool() ? -1 : 0; }
wss_session_t *WSS_session_find(int fd)
__CPROVER_requires(fd == h_fd && G.rw == 0 && !G.fails) __CPROVER_assigns(G) __CPROVER_ensures(G.rw == 0 && __CPROVER_return_value == (G.fails ? (wss_session_t *)NULL : G.o_ent))
;
#ifdef ADD
wss_session_t *WSS_session_add(int fd, char *ip, int port)
__CPROVER_requires(fd == h_fd && ip == h_ip && G.rw == 0 && !G.fails && G.live == 0 && !G.added)
__CPROVER_assigns(G)
__CPROVER_ensures(G.rw == 0)
__CPROVER_ensures(__CPROVER_return_value == NULL ==> G.live == 0 && !G.added)
__CPROVER_ensures(__CPROVER_return_value != NULL ==> G.live == 2 && G.added && G.o_ent == NULL && G.inits == 3)
;
#endif
#if defined(DELETE)
wss_error_t WSS_session_delete(wss_session_t *session)
__CPROVER_requires((session == NULL || session == h_s) && G.rw == 0 && !G.fails)
__CPROVER_assigns(G, __CPROVER_object_whole(h_s); h_fra != NULL: __CPROVER_object_whole(h_fra); h_msgs != NULL: __CPROVER_object_whole(h_msgs); h_msg->msg)
__CPROVER_ensures(G.rw == 0)
__CPROVER_ensures((G.fails || session == NULL) ==> !G.removed && !G.self && !G.ip && !G.fra && !G.msgs && !G.hdr && !G.fdclosed)
__CPROVER_ensures((!G.fails && session != NULL) ==> G.removed && G.ent == NULL && G.self == 1 && G.ip == 1 && G.pong == (h_pong != NULL) && G.pay == (h_pay != NULL) && G.fra == (h_fra != NULL) && G.nfr == h_nfr && G.msgs == (h_msgs != NULL)
   && G.nmsg == h_nmsgs && G.ring == (h_ring != NULL) && G.hdr == (h_hdr != NULL) && G.ssl == (h_sslp != NULL) && G.fdclosed == 1)
;
#endif
#ifdef ALL
static wss_error_t session_delete(wss_session_t *session)
__CPROVER_requires(G.rw == 2 && session != NULL && (session == h_o || (session == h_s && !G.removed))) __CPROVER_assigns(G.removed, G.ent, G.cbs)
__CPROVER_ensures(G.removed == (__CPROVER_old(G.removed) || session == h_s)) __CPROVER_ensures(session == h_s ? G.ent == NULL : G.ent == __CPROVER_old(G.ent))
;
wss_error_t WSS_session_delete_all()
__CPROVER_requires(G.rw == 0 && !G.fails && !G.seen && !G.over && !G.removed) __CPROVER_assigns(G)
__CPROVER_ensures(G.rw == 0 && (G.fails || (G.removed == (G.o_ent != NULL) && G.ent == NULL)))
;
static void st_cb(wss_session_t *s) { A_(G.rw >= 1, "called under the lock"); if (s == h_s) G.cbs++; }
wss_error_t WSS_session_all(void (*callback)(wss_session_t *))
__CPROVER_requires(callback == st_cb && G.rw == 0 && !G.fails && !G.seen && !G.over && G.cbs == 0) __CPROVER_assigns(G)
__CPROVER_ensures(G.rw == 0 && (G.fails || G.cbs == (G.o_ent != NULL)))
;
#endif
void *vp_alloc(size_t n) { void *p; if (nondet_bool()) return NULL; A_(n > 0, "allocates something"); p = calloc(1, n); __CPROVER_assume(p != NULL); G.live++; return p; }
#define WSS_malloc vp_alloc
#include "alloc.h"
#undef WSS_free
void WSS_free(void **p) { if (*p == NULL) return;
#ifdef ADD
  A_(G.live > 0, "releases what it has"); G.live--;
#else
  A_(!G.self, "the session is released last");
  if (*p == (void *)h_ipp) G.ip++; else if (*p == (void *)h_pong) G.pong++; else if (*p == (void *)h_pay) G.pay++; else if (*p == (void *)h_fra) { A_(G.nfr == h_nfr, "the list after its frames"); G.fra++; }
  else if (*p == (void *)h_msgs) { A_(G.nmsg == h_nmsgs, "the list after its messages"); G.msgs++; } else if (*p == (void *)h_ring) G.ring++; else if (*p == (void *)h_s) G.self++;
  else if (h_msg && *p == (void *)h_msg->msg) { A_(!G.msgfree, "the bytes of a message are released once"); G.msgfree = 1; return; } /* h_msg stands for every message of the list */
  else if (*p == (void *)h_msg) { A_(G.msgfree || h_msg->msg == NULL, "the bytes of a message are released before it"); G.msgfree = 0; G.nmsg++; if ((wss_message_t **)p == h_msgs + h_hj) { A_(!G.slot, "every message once"); G.slot = 1; } return; }
  else A_(0, "releases only what belongs to the session");
#endif
  *p = NULL; }
void WSS_free_frame(wss_frame_t *f) { A_(f == h_fr && !G.self && G.nfr < h_nfr && !G.fra, "every frame that is kept is released, with its payload"); G.nfr++; }
void WSS_free_header(wss_header_t *h) { A_(h == h_hdr && !G.self, "the header is released"); G.hdr++; }
static void st_close(int fd) { A_(fd == h_fd && !G.hdr && !G.self, "components are told of the descriptor before the session is gone"); G.closes++; }
wss_error_t WSS_session_ssl_free(wss_session_t *s, pthread_rwlock_t *l) { A_(s == h_s && s->ssl != NULL && !G.self && G.rw == 2, "the TLS state is released under the lock of the table"); G.ssl++; s->ssl = NULL; unsigned t = nondet_uint(); return (wss_error_t)t; }
#ifdef ADD
size_t vp_strlen(const char *s) { A_(s == h_ip, "the length of the address"); return h_len; }
#define strlen vp_strlen
/* the copy of the address: the byte with the arbitrary index h_k and the one that ends the address */
#undef memcpy
void *vp_copy(void *d, const void *s, size_t n) { A_(n == 0 || (__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n)), "copies inside both objects"); if (h_k < n) ((char *)d)[h_k] = ((char *)s)[h_k]; if (h_len < n) ((char *)d)[h_len] = ((char *)s)[h_len]; return d; }
#define memcpy vp_copy
#endif
#include "log.h"
#define log_log(...) ((void)0)
#include "src/session.c"
static void ghosts(void) { __CPROVER_havoc_object(&G); G.rw = G.job = G.dcl = G.ses = G.fails = G.sig = G.fdclosed = G.closes = G.live = G.cbs = G.inits = 0; G.hdr = G.ssl = G.ip = G.pong = G.pay = G.fra = G.msgs = G.ring = G.self = 0; G.nfr = G.nmsg = 0;
  G.slot = G.msgfree = G.seen = G.over = G.added = G.removed = 0; f_lock = 1; h_fd = nondet_int(); h_s = malloc(sizeof *h_s); h_o = malloc(sizeof *h_o); __CPROVER_assume(h_s && h_o); h_s->fd = h_fd; }
#ifdef ADD
void h_add(void) { ghosts(); h_len = nondet_size_t(); __CPROVER_assume(h_len < 0x7fffffff); h_ip = malloc(h_len + 1); __CPROVER_assume(h_ip); h_k = nondet_size_t(); __CPROVER_assume(h_k < h_len || h_len == 0); h_ip[h_len] = 0; char c = h_len ? h_ip[h_k] : 0; int port = nondet_int();
  wss_session_t *s = WSS_session_add(h_fd, h_ip, port);
  if (s) { A_(s == G.ent, "the session that is returned is found"); A_(s->fd == h_fd && s->port == port, "it has its descriptor and port"); A_(s->ip != NULL && s->ip[h_len] == 0 && (!h_len || (s->ip[h_k] == c && c == h_ip[h_k])), "and its own copy of the address");
    A_(s->jobs == 0 && !s->handshaked && !s->closing && !s->disconnecting && s->state == IDLE && s->event == NONE && s->header == NULL && s->ssl == NULL && s->messages == NULL && s->messages_count == 0 && s->ringbuf == NULL && s->frames == NULL && s->frames_length == 0
       && s->payload == NULL && s->payload_length == 0 && s->offset == 0 && s->pong == NULL && s->written == 0, "a new session is empty"); }
  REACH; }
#endif
void h_find(void) { ghosts(); WSS_session_find(h_fd); REACH; }
#ifdef COUNT
void h_inc(void) { ghosts(); G.delta = 1; WSS_session_jobs_inc(h_s); REACH; }
void h_dec(void) { ghosts(); G.delta = -1; WSS_session_jobs_dec(h_s); REACH; }
void h_wait(void) { ghosts(); G.delta = 0; WSS_session_jobs_wait(h_s); REACH; }
void h_disc(void) { ghosts(); bool dc; WSS_session_is_disconnecting(h_s, &dc); REACH; }
#endif
#ifdef DELETE
void h_delete(void) { ghosts(); G.ent = h_s; G.o_ent = h_s;
  h_s->ip = h_ipp = malloc(1); h_s->pong = h_pong = nondet_bool() ? malloc(1) : NULL; h_s->payload = h_pay = nondet_bool() ? malloc(1) : NULL; h_s->ringbuf = h_ring = nondet_bool() ? malloc(1) : NULL; h_s->ssl = h_sslp = nondet_bool() ? malloc(1) : NULL;
  h_nfr = nondet_size_t(); __CPROVER_assume(h_nfr < (1ul << 40)); h_fr = malloc(sizeof *h_fr); __CPROVER_assume(h_fr && h_ipp); if (h_nfr) { h_fra = malloc(h_nfr * sizeof *h_fra); __CPROVER_assume(h_fra); __CPROVER_array_set(h_fra, h_fr); } else h_fra = NULL; h_s->frames = h_fra; h_s->frames_length = h_nfr;
  int nm = nondet_int(); __CPROVER_assume(nm >= 0 && nm < (1 << 30)); h_msg = malloc(sizeof *h_msg); __CPROVER_assume(h_msg); h_msg->msg = nondet_bool() ? malloc(1) : NULL; h_nmsgs = nm; h_hj = nondet_size_t(); __CPROVER_assume(h_hj < h_nmsgs || nm == 0);
  if (nm) { h_msgs = malloc(nm * sizeof *h_msgs); __CPROVER_assume(h_msgs); __CPROVER_array_set(h_msgs, h_msg); } else h_msgs = NULL; h_null = nondet_size_t(); if (nm && h_null < h_nmsgs) { h_msgs[h_null] = NULL; h_nmsgs--; } else h_null = ~0ul; h_s->messages = h_msgs; h_s->messages_count = nm;
  if (nondet_bool()) { h_hdr = malloc(sizeof *h_hdr); __CPROVER_assume(h_hdr); h_extn = nondet_int(); __CPROVER_assume(h_extn >= 0 && h_extn < (1 << 30)); wss_ext_t *w = malloc(sizeof *w); wss_extension_t *e = malloc(sizeof *e); wss_subprotocol_t *p = malloc(sizeof *p); __CPROVER_assume(w && e && p);
    w->ext = e; e->close = st_close; p->close = st_close; h_hdr->ws_protocol = nondet_bool() ? p : NULL; h_hdr->ws_extensions_count = h_extn; if (h_extn) { h_hdr->ws_extensions = malloc(h_extn * sizeof(wss_ext_t *)); __CPROVER_assume(h_hdr->ws_extensions); __CPROVER_array_set(h_hdr->ws_extensions, w); } h_sub = h_hdr->ws_protocol; } else h_hdr = NULL;
  h_s->header = h_hdr;
  wss_session_t *a = nondet_bool() ? h_s : NULL; WSS_session_delete(a);
  if (a && !G.fails && h_hdr) A_(G.closes == h_extn + (h_sub != NULL), "every extension and the subprotocol is told");
  REACH; }
#endif
#ifdef ALL
void h_delete_all(void) { ghosts(); WSS_session_delete_all(); REACH; }
void h_all(void) { ghosts(); WSS_session_all(st_cb); REACH; }
#endif
