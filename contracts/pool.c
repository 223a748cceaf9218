/* P16: src/pool.c. Whenever the lock is acquired (or a wait returns) the other threads may have done anything that keeps the representation invariant; what a
 * function does between acquiring and releasing the lock is compared with what it found. hk is one arbitrary slot of the queue. */
#include "mem.h"
#include <pthread.h>
#include "pool.h"
#define REACH __CPROVER_assert(0, "VP_REACH")
#define A_(c, t) __CPROVER_assert(c, t)
int g_lock, g_wait, g_first, o_count, o_head, o_tail, o_shut, o_started, hk, g_sig, g_bcast, g_joined, g_created, g_frees, g_nthreads, h_size; _Bool g_destroyed, g_lockfail, g_joinfail, g_pend, g_exit, g_freed, f_lock;
void *g_arg, *h_arg, *o_arg; void (*o_fn)(void *); void (*h_fn)(void *); threadpool_t *h_p; int *p_count, *p_head, *p_tail, *p_shut, *p_started, *p_tc; char *h_q; unsigned long *h_thr;
typedef struct { void (*function)(void *); void *argument; } slot_t;
#define Q ((slot_t *)h_q)
#define NEXT(i) ((i) + 1 == h_size ? 0 : (i) + 1)
#define INV (0 <= *p_count && *p_count <= h_size && 0 <= *p_head && *p_head < h_size && (*p_tail == ((long)*p_head + *p_count >= h_size ? *p_head + *p_count - h_size : *p_head + *p_count)))
#define STATE *p_count, *p_head, *p_tail, *p_shut, *p_started
/* add: accepted exactly when there is room and no shutdown; then it is the last of the queue and nothing else changes */
int threadpool_add(threadpool_t *pool, void (*routine)(void *), void *arg, int flags)
__CPROVER_requires((pool == NULL || pool == h_p) && routine == h_fn && arg == h_arg && g_lock == 0 && g_sig == 0 && !g_lockfail)
__CPROVER_assigns(STATE, __CPROVER_object_whole(h_q), g_lock, g_wait, g_lockfail, g_sig, g_first, o_count, o_head, o_tail, o_shut, o_started, o_fn, o_arg)
__CPROVER_ensures(g_lock == 0)
__CPROVER_ensures((pool == NULL || routine == NULL) ==> __CPROVER_return_value == threadpool_invalid && g_first == 0)
__CPROVER_ensures((pool != NULL && routine != NULL && g_lockfail) ==> __CPROVER_return_value == threadpool_lock_failure)
__CPROVER_ensures((pool != NULL && routine != NULL && !g_lockfail) ==> (__CPROVER_return_value == 0) == (o_count < h_size && o_shut == 0) && (__CPROVER_return_value == threadpool_queue_full ==> o_count == h_size) && (__CPROVER_return_value == threadpool_shutdown ==> o_shut != 0)
   && INV && *p_head == o_head && *p_shut == o_shut && *p_started == o_started)
__CPROVER_ensures((pool != NULL && routine != NULL && !g_lockfail && __CPROVER_return_value == 0) ==> *p_count == o_count + 1 && *p_tail == NEXT(o_tail) && Q[o_tail].function == h_fn && Q[o_tail].argument == h_arg && g_sig == 1)
__CPROVER_ensures((pool != NULL && routine != NULL && !g_lockfail && __CPROVER_return_value != 0) ==> *p_count == o_count && *p_tail == o_tail)
__CPROVER_ensures((pool != NULL && routine != NULL && !g_lockfail && (__CPROVER_return_value != 0 || hk != o_tail)) ==> Q[hk].function == o_fn && Q[hk].argument == o_arg)
;
#ifdef CREATE
threadpool_t *threadpool_create(int thread_count, int queue_size, int thread_size, int flags)
__CPROVER_requires(thread_count > 0 && thread_count == g_nthreads && queue_size == h_size && g_created == 0 && !g_destroyed && !g_freed)
__CPROVER_assigns(g_created, g_destroyed, g_freed, h_p)
__CPROVER_ensures(__CPROVER_return_value != NULL ==> g_created == thread_count && __CPROVER_return_value == h_p && !g_destroyed && !g_freed)
__CPROVER_ensures(__CPROVER_return_value == NULL ==> (g_created == 0 || g_destroyed))
;
int threadpool_free(threadpool_t *pool)
__CPROVER_requires(g_created == 0 && !g_freed && !g_destroyed) __CPROVER_assigns(g_freed) __CPROVER_ensures(g_freed)
;
int threadpool_destroy(threadpool_t *pool, int flags)
__CPROVER_requires(pool == h_p && !g_freed && !g_destroyed && flags == 0) __CPROVER_assigns(g_destroyed) __CPROVER_ensures(g_destroyed)
;
#else
/* free: only when no thread is left; everything once */
int threadpool_free(threadpool_t *pool)
#ifdef FREE
__CPROVER_requires((pool == NULL || pool == h_p) && g_frees == 0)
__CPROVER_assigns(__CPROVER_object_whole(h_p), g_lock, g_wait, g_lockfail, g_frees, g_first, o_count, o_head, o_tail, o_shut, o_started, g_arg, __CPROVER_object_whole(h_q))
__CPROVER_ensures((pool == NULL || g_nthreads > 0) ? __CPROVER_return_value == -1 && g_frees == 0 : __CPROVER_return_value == 0 && g_frees == 7)
#else
__CPROVER_requires(pool == h_p && g_joined == *p_tc && g_lock == 0 && !g_freed)
__CPROVER_assigns(g_freed) __CPROVER_ensures(g_freed && __CPROVER_return_value == 0)
#endif
;
/* destroy: the first call sets the mode, wakes everybody, waits for every thread and then releases the pool; further calls do nothing */
int threadpool_destroy(threadpool_t *pool, int flags)
__CPROVER_requires((pool == NULL || pool == h_p) && g_lock == 0 && g_joined == 0 && g_bcast == 0 && !g_freed && !g_lockfail && !g_joinfail)
__CPROVER_assigns(STATE, __CPROVER_object_whole(h_q), g_lock, g_wait, g_lockfail, g_joinfail, g_joined, g_bcast, g_freed, g_first, o_count, o_head, o_tail, o_shut, o_started, g_arg)
__CPROVER_ensures(g_lock == 0 && (__CPROVER_return_value == 0) == (g_freed != 0))
__CPROVER_ensures(pool == NULL ? __CPROVER_return_value == threadpool_invalid && g_first == 0 : g_lockfail ? __CPROVER_return_value == threadpool_lock_failure && g_joined == 0
  : o_shut != 0 ? __CPROVER_return_value == threadpool_shutdown && g_joined == 0 && *p_shut == o_shut
  : g_bcast == 1 && g_joined == *p_tc && (__CPROVER_return_value == 0) == !g_joinfail && *p_shut == ((flags & threadpool_graceful) ? 2 : 1))
;
#endif
#ifndef CREATE
static void *threadpool_thread(void *pool)
__CPROVER_requires(pool == h_p && g_lock == 0 && !g_pend && !g_exit)
__CPROVER_assigns(STATE, __CPROVER_object_whole(h_q), g_lock, g_wait, g_lockfail, g_pend, g_exit, g_first, o_count, o_head, o_tail, o_shut, o_started, g_arg)
__CPROVER_ensures(0)
;
#endif
void *vp_alloc(size_t n) { void *p; if (nondet_bool()) return NULL; A_(n > 0, "allocates something"); p = malloc(n); __CPROVER_assume(p != NULL); return p; }
#ifdef CREATE
#define WSS_malloc vp_alloc
#endif
#include "alloc.h"
#undef WSS_free
void WSS_free(void **p) { if (*p == NULL) return;
  if (*p == (void *)h_thr) { A_(!(g_frees & 1), "threads freed once"); g_frees |= 1; } else if (*p == (void *)h_q) { A_(!(g_frees & 2), "queue freed once"); g_frees |= 2; } else { A_(*p == (void *)h_p && (g_frees & 3) == 3, "the pool is freed last"); g_frees |= 4; } *p = NULL; }
static void st_fn(void *a) { A_(g_pend && !g_lock && a == g_arg, "the item taken from the queue is executed, once, with its argument and without the lock"); g_pend = 0; }
void rpmalloc_thread_initialize(void) {} void rpmalloc_thread_finalize(void) {} int rpmalloc_initialize(void) { return 0; }
#include "src/pool.c"
/* what the other threads may have done */
static void others(threadpool_t *p) {
  int c = nondet_int(), h = nondet_int(), t = nondet_int(), s = nondet_int(), st = nondet_int(); __CPROVER_havoc_object(h_q);
  p->count = c; p->head = h; p->tail = t; p->started = st; if (p->shutdown == 0) p->shutdown = s; __CPROVER_assume(p->shutdown >= 0 && p->shutdown <= 2); __CPROVER_assume(INV && st > 0 && st <= p->thread_count);
#ifdef THREAD
  g_arg = (void *)nondet_size_t(); if (c > 0) { p->queue[h].function = st_fn; p->queue[h].argument = g_arg; }
#endif
#ifdef ADD
  o_fn = p->queue[hk].function; o_arg = p->queue[hk].argument;
#endif
  o_count = c; o_head = h; o_tail = t; o_shut = p->shutdown; o_started = st; }
int pthread_mutex_lock(pthread_mutex_t *m) { A_(m == &h_p->lock && g_lock == 0, "takes the lock of the pool, once"); g_first = 1; g_wait = 0; if (f_lock && nondet_bool()) { g_lockfail = 1; return 1 + (nondet_uint() & 15); } g_lock = 1;
#ifndef FREE
  others(h_p);
#endif
  return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { A_(m == &h_p->lock && g_lock == 1, "releases the lock it holds"); g_lock = 0;
#ifdef THREAD
  A_(h_p->shutdown == o_shut && h_p->tail == o_tail, "a worker changes neither the mode nor the end of the queue");
  if (h_p->count == o_count - 1) { A_(o_count > 0 && o_shut != immediate_shutdown && h_p->head == NEXT(o_head) && h_p->started == o_started && !g_pend, "a worker takes the first item of the queue"); g_pend = 1; }
  else { A_(h_p->count == o_count && h_p->head == o_head && h_p->started == o_started - 1 && !g_exit && (o_shut == immediate_shutdown || (o_shut == graceful_shutdown && o_count == 0)), "a worker leaves only when the pool shuts down, when gracefully only once the queue is empty"); g_exit = 1; }
#endif
  return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { A_(c == &h_p->notify && m == &h_p->lock && g_lock == 1 && h_p->count == 0 && h_p->shutdown == 0, "waits only when there is nothing to do"); others(h_p);
  /* every wait but one per item ends with something to do: what is found after a spurious wake-up is arbitrary anyway, so a second one in a row adds nothing */
  if (g_wait++) __CPROVER_assume(h_p->count > 0 || h_p->shutdown != 0);
  return 0; }
int pthread_cond_signal(pthread_cond_t *c) { A_(c == &h_p->notify && g_lock == 1, "signals the workers"); g_sig++; return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { A_(c == &h_p->notify && g_lock == 1 && h_p->shutdown != 0, "wakes everybody after the mode is set"); g_bcast++; return 0; }
int pthread_join(pthread_t t, void **r) { A_(g_joined < h_p->thread_count && t == h_p->threads[g_joined] && g_lock == 0 && g_bcast, "every thread is joined, once, without the lock"); g_joined++; if (nondet_bool()) { g_joinfail = 1; return 3; } return 0; }
int pthread_attr_destroy(pthread_attr_t *a) { return 0; } int pthread_mutex_destroy(pthread_mutex_t *m) { return 0; } int pthread_cond_destroy(pthread_cond_t *c) { return 0; }
void pthread_exit(void *r) { A_(g_exit && !g_pend && !g_lock, "a thread ends after it left the pool, with no item pending"); REACH; __CPROVER_assume(0); while (1); }
#ifdef CREATE
int pthread_attr_init(pthread_attr_t *a) { return 0; } int pthread_attr_setstacksize(pthread_attr_t *a, size_t n) { return 0; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { return nondet_bool(); } int pthread_cond_init(pthread_cond_t *m, const pthread_condattr_t *a) { return nondet_bool(); }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) { threadpool_t *p = arg; A_(g_created == 0 || p == h_p, "one pool for all"); h_p = p;
  A_(fn == threadpool_thread && t == p->threads + g_created && g_created < g_nthreads, "the threads are started one after the other");
  A_(p->count == 0 && p->head == 0 && p->tail == 0 && p->shutdown == 0 && p->queue_size == h_size && __CPROVER_w_ok(p->queue, (size_t)h_size * sizeof *p->queue), "the queue is empty and of the size asked for when threads start");
  if (nondet_bool()) return 11; g_created++; return 0; }
void h_create(void) { int q = nondet_int(); __CPROVER_assume(q > 0 && q < (1 << 20)); h_size = q; g_nthreads = nondet_int(); __CPROVER_assume(g_nthreads > 0 && g_nthreads < (1 << 20)); g_created = 0; g_destroyed = g_freed = 0; h_p = NULL;
  threadpool_t *p = threadpool_create(g_nthreads, h_size, nondet_int(), nondet_int());
  if (p) A_(p->thread_count == g_nthreads && p->started == g_nthreads && p->count == 0 && p->head == 0 && p->tail == 0 && p->shutdown == 0 && p->queue_size == h_size, "a new pool satisfies the invariant");
  REACH; }
#endif
static void pool_(void) {
  h_p = malloc(sizeof *h_p); h_size = nondet_int(); __CPROVER_assume(h_size > 0 && h_size < (1 << 30)); h_q = malloc((size_t)h_size * sizeof(threadpool_task_t)); int tc = nondet_int(); __CPROVER_assume(tc > 0 && tc < (1 << 30)); h_thr = malloc((size_t)tc * sizeof(pthread_t));
  __CPROVER_assume(h_p && h_q && h_thr); h_p->queue = (threadpool_task_t *)h_q; h_p->threads = h_thr; h_p->thread_count = tc; h_p->queue_size = h_size; p_count = &h_p->count; p_head = &h_p->head; p_tail = &h_p->tail; p_shut = &h_p->shutdown; p_started = &h_p->started; p_tc = &h_p->thread_count;
  hk = nondet_int(); __CPROVER_assume(hk >= 0 && hk < h_size); h_p->shutdown = 0; g_lock = g_first = g_sig = g_bcast = g_joined = g_frees = 0; g_lockfail = g_joinfail = g_pend = g_exit = g_freed = 0; f_lock = 1; }
void h_add(void) { pool_(); h_fn = nondet_bool() ? st_fn : NULL; h_arg = (void *)nondet_size_t(); threadpool_add(nondet_bool() ? h_p : NULL, h_fn, h_arg, nondet_int()); REACH; }
void h_thread(void) { pool_(); f_lock = 0; threadpool_thread(h_p); }
void h_destroy(void) { pool_(); threadpool_destroy(nondet_bool() ? h_p : NULL, nondet_int()); REACH; }
void h_free(void) { pool_(); g_nthreads = nondet_bool() ? 0 : nondet_int(); __CPROVER_assume(g_nthreads >= 0); h_p->started = g_nthreads; f_lock = 0; threadpool_free(nondet_bool() ? h_p : NULL); REACH; }
