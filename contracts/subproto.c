/* P24: subprotocols/echo/echo.c and subprotocols/broadcast/broadcast.c. The table of clients (uthash) is represented by its meaning as a map with one arbitrary watched
 * descriptor h_w; whenever its lock is acquired the callbacks of other sessions may have changed anything but the entry of the session this callback belongs to. */
#include "mem.h"
#include <pthread.h>
#include <sys/types.h>
#define REACH __CPROVER_assert(0, "VP_REACH")
#define A_(c, t) __CPROVER_assert(c, t)
#include "subprotocol.h"
int h_fd, h_w; wss_opcode_t h_op; char *h_m; size_t h_n;
static void st_send(int fd, wss_opcode_t op, char *m, uint64_t n);
#ifdef ECHO
#define onInit x_onInit
struct { unsigned long sent; } G;
void onMessage(int fd, wss_opcode_t opcode, char *message, size_t message_length)
__CPROVER_requires(fd == h_fd && opcode == h_op && message == h_m && message_length == h_n && G.sent == 0) __CPROVER_assigns(G) __CPROVER_ensures(G.sent == 1)
;
#include "subprotocols/echo/echo.c"
static void st_send(int fd, wss_opcode_t op, char *m, uint64_t n) { A_(fd == h_fd, "the answer goes to the sender"); A_(op == h_op && m == h_m && n == h_n, "the message is unchanged"); G.sent++; }
void h_echo(void) { h_fd = nondet_int(); unsigned o = nondet_uint(); h_op = (wss_opcode_t)o; h_n = nondet_size_t(); __CPROVER_assume(h_n < (1ul << 40)); h_m = malloc(h_n); __CPROVER_assume(h_m); G.sent = 0;
  onInit(NULL, st_send); A_(G.sent == 0, "nothing is sent before a message"); onConnect(h_fd, NULL, 0, NULL, NULL); A_(G.sent == 0, "connecting sends nothing"); onMessage(h_fd, h_op, h_m, h_n); onWrite(h_fd, h_m, h_n); onClose(h_fd); A_(G.sent == 1, "one answer to one message"); REACH; }
#else
#include "subprotocols/broadcast/broadcast.h"
#undef HASH_FIND_INT
#undef HASH_ADD_INT
#undef HASH_DEL
#undef HASH_ITER
struct { int rw; _Bool fails, seen, over, nomem; unsigned long sent, strange; wss_client_t *ent, *o_ent; int freed, made; } G; wss_client_t *h_c, *h_o;
extern pthread_rwlock_t lock;
static wss_client_t *vp_find(int k) { A_(G.rw >= 1, "the table is only searched under its lock"); if (k == h_w) return G.ent; return nondet_bool() ? NULL : h_o; }
static void vp_add(wss_client_t *c) { A_(G.rw == 2, "the table is only changed under the write lock"); A_(c == h_c || c == h_o, "adds the client it made"); A_(c->fd == h_fd, "added under its descriptor"); if (h_fd == h_w) { A_(G.fails || G.ent == NULL, "a session is added once"); G.ent = c; } }
static void vp_del(wss_client_t *c) { A_(G.rw == 2, "the table is only changed under the write lock"); A_(c != NULL && !G.freed, "removes what is there");
#ifdef DESTROY
  if (c == h_c) { A_(G.ent == h_c, "removes what is there"); G.ent = NULL; }
#else
  A_(c->fd == h_fd, "only the session that left is removed"); if (h_fd == h_w) { A_(G.ent == c, "removes what is there"); G.ent = NULL; }
#endif
}
#define HASH_FIND_INT(h, k, o) do { (o) = vp_find(*(k)); } while (0)
#define HASH_ADD_INT(h, f, a) vp_add(a)
#define HASH_DEL(h, d) vp_del(d)
/* visits every entry once: the watched one when it is its turn, any number of others before and after */
static wss_client_t *vp_next(void) { int d = nondet_int(); __CPROVER_assume(d != h_w); if (G.over) return NULL; if (G.ent != NULL && !G.seen && nondet_bool()) { G.seen = 1; return G.ent; } if ((G.seen || G.ent == NULL) && nondet_bool()) { G.over = 1; return NULL; } h_o->fd = d; return h_o; }
#define HASH_ITER(hh, h, e, t) for ((e) = vp_next(), (t) = NULL; (e) != NULL; (e) = vp_next())
/* the callbacks of the sessions other than h_fd may have run */
static void others(void) { if (h_w != h_fd) { G.ent = nondet_bool() ? NULL : h_c; } G.o_ent = G.ent; }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { A_(m == &lock && G.rw == 0, "the lock of the table is not taken twice"); if (nondet_bool()) { G.fails = 1; return 35; } G.rw = 1; others(); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { A_(m == &lock && G.rw == 0, "the lock of the table is not taken twice"); if (nondet_bool()) { G.fails = 1; return 35; } G.rw = 2; others(); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { A_(m == &lock && G.rw != 0, "the lock of the table is released by who holds it"); G.rw = 0; return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *m) { A_(m == &lock && G.rw == 0, "the lock is not in use"); return 0; }
#ifdef MESSAGE
void onMessage(int fd, wss_opcode_t opcode, char *message, size_t message_length)
__CPROVER_requires(fd == h_fd && opcode == h_op && message == h_m && message_length == h_n && G.rw == 0 && !G.fails && !G.seen && !G.over && G.sent == 0 && G.ent == (h_w == h_fd ? h_c : NULL))
__CPROVER_assigns(G, h_o->fd) __CPROVER_ensures(G.rw == 0) __CPROVER_ensures(G.fails ? G.sent == 0 : G.sent == (G.o_ent != NULL && h_w != h_fd))
;
#endif
#ifdef CONNECT
void onConnect(int fd, char *ip, int port, char *path, char *cookies)
__CPROVER_requires(fd == h_fd && G.rw == 0 && !G.fails && !G.nomem && G.made == 0 && (G.ent == NULL || G.ent == h_c)) __CPROVER_assigns(G, h_c->fd, h_o->fd)
__CPROVER_ensures(G.rw == 0 && G.sent == 0) __CPROVER_ensures((!G.fails && !G.nomem && h_w == h_fd) ==> G.ent == h_c) __CPROVER_ensures(h_w != h_fd ==> G.ent == G.o_ent)
;
#endif
#ifdef CLOSE
void onClose(int fd)
__CPROVER_requires(fd == h_fd && G.rw == 0 && !G.fails && G.freed == 0 && (G.ent == NULL || G.ent == h_c)) __CPROVER_assigns(G)
__CPROVER_ensures(G.rw == 0 && G.sent == 0) __CPROVER_ensures((!G.fails && h_w == h_fd) ==> G.ent == NULL && G.freed == (__CPROVER_old(G.ent) != NULL)) __CPROVER_ensures(h_w != h_fd ==> G.ent == G.o_ent)
;
#endif
static void *st_malloc(size_t n); static void *st_realloc(void *p, size_t n); static void st_free(void *p);
#define malloc st_malloc
#define realloc st_realloc
#define free st_free
#include "subprotocols/broadcast/broadcast.c"
#undef malloc
#undef realloc
#undef free
static void *st_realloc(void *p, size_t n) { A_(0, "nothing is resized"); return NULL; }
static void st_send(int fd, wss_opcode_t op, char *m, uint64_t n) { A_(fd != h_fd, "nothing is sent back to the sender"); A_(op == h_op && m == h_m && n == h_n, "the message is unchanged"); if (fd == h_w) { A_(G.ent != NULL, "a session that left receives nothing"); G.sent++; } }
static void *st_malloc(size_t n) { A_(n >= sizeof(wss_client_t) && !G.made, "one client is made"); if (nondet_bool()) { G.nomem = 1; return NULL; } G.made = 1; return h_w == h_fd ? h_c : h_o; }
static void st_free(void *p) { A_(p == h_c || p == h_o, "releases a client"); if (p == h_c) { A_(G.ent != h_c && !G.freed, "a client is released once, after it was removed"); G.freed++; } }
static void world(void) { __CPROVER_havoc_object(&G); G.rw = 0; G.fails = G.seen = G.over = G.nomem = 0; G.sent = 0; G.freed = G.made = 0; G.ent = G.o_ent = NULL; h_fd = nondet_int(); h_w = nondet_int(); unsigned o = nondet_uint(); h_op = (wss_opcode_t)o; h_n = nondet_size_t(); __CPROVER_assume(h_n < (1ul << 40)); h_m = malloc(h_n);
  h_c = malloc(sizeof *h_c); h_o = malloc(sizeof *h_o); __CPROVER_assume(h_m && h_c && h_o); h_c->fd = h_w; if (h_w != h_fd) h_o->fd = h_fd; setAllocators(st_malloc, st_realloc, st_free); onInit(NULL, st_send); }
#ifdef MESSAGE
void h_message(void) { world(); G.ent = h_w == h_fd ? h_c : NULL; onMessage(h_fd, h_op, h_m, h_n); REACH; }
#endif
#ifdef CONNECT
void h_connect(void) { world(); G.ent = G.o_ent = nondet_bool() ? h_c : NULL; onConnect(h_fd, NULL, 0, NULL, NULL); REACH; }
#endif
#ifdef CLOSE
void h_close(void) { world(); G.ent = G.o_ent = nondet_bool() ? h_c : NULL; onClose(h_fd); REACH; }
#endif
#endif
