/* P16 replay: a pool of a few workers under full control: every item waits until the case lets it go, and after every step the pool is left to settle, so that what
 * has to be accepted, refused, started and in which order is known exactly. */
#include "vp.h"
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include "pool.h"
int rpmalloc_initialize(void) { return 0; } void rpmalloc_thread_initialize(void) {} void rpmalloc_thread_finalize(void) {}
#define MAXI 64
static pthread_mutex_t L = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t C = PTHREAD_COND_INITIALIZER;
static struct { int state, arg; sem_t go; } it[MAXI]; static int started[MAXI * 4], nstarted, nrunning, ndone, twice; /* state 0 waiting 1 running 2 done */
static void item(void *a) { int k = (int)(intptr_t)a - 1000;
  pthread_mutex_lock(&L); if (k < 0 || k >= MAXI || it[k].state != 0) { twice = 1; pthread_cond_broadcast(&C); pthread_mutex_unlock(&L); return; } it[k].state = 1; nrunning++; started[nstarted++] = k; pthread_cond_broadcast(&C); pthread_mutex_unlock(&L);
  while (sem_wait(&it[k].go) && errno == EINTR);
  pthread_mutex_lock(&L); it[k].state = 2; nrunning--; ndone++; pthread_cond_broadcast(&C); pthread_mutex_unlock(&L); }
static int settle(int want_started, int want_done) { /* waits until that many items have been started and done; 1: it does not happen */
  struct timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_sec += 8; int r = 0;
  pthread_mutex_lock(&L); while (!twice && (nstarted < want_started || ndone < want_done)) if (pthread_cond_timedwait(&C, &L, &t) == ETIMEDOUT) { r = 1; break; } if (nstarted > want_started) r = 2; if (twice) r = 3; pthread_mutex_unlock(&L); return r; }
static struct { threadpool_t *p; int flags, ret, done; } D;
static void *destroyer(void *a) { int r = threadpool_destroy(D.p, D.flags); pthread_mutex_lock(&L); D.ret = r; D.done = 1; pthread_cond_broadcast(&C); pthread_mutex_unlock(&L); return NULL; }
static int vp_case(const uint8_t *in, size_t n) {
  if (n < 4) return 0;
  int nw = 1 + in[0] % 4, nq = 1 + in[1] % 6, acc = 0, rel = 0, next = 0, r = 0, order[MAXI]; int mode = in[2] % 3;
  nstarted = nrunning = ndone = twice = 0; for (int i = 0; i < MAXI; i++) { it[i].state = 0; sem_init(&it[i].go, 0, 0); }
  threadpool_t *p = threadpool_create(nw, nq, 1 << 17, 0); if (!p) return 0;
  if (threadpool_add(p, NULL, NULL, 0) != threadpool_invalid || threadpool_add(NULL, item, NULL, 0) != threadpool_invalid) r = vp_fail("adding nothing is not refused as invalid");
  size_t k;
  for (k = 3; k < n && !r && next < MAXI - 2; k++) {
    int run = acc - rel < nw ? acc - rel : nw, queued = acc - rel - run;
    if (in[k] % 3) { int e = threadpool_add(p, item, (void *)(intptr_t)(1000 + next), 0);
      if (queued < nq) { if (e != 0) { r = vp_fail("item refused (%d) with %d of %d slots in use", e, queued, nq); break; } order[acc++] = next++; }
      else { if (e != threadpool_queue_full) { r = vp_fail("full queue of %d: add returns %d", nq, e); break; } } }
    else { int c[MAXI], m = 0; pthread_mutex_lock(&L); for (int i = 0; i < MAXI; i++) if (it[i].state == 1) c[m++] = i; pthread_mutex_unlock(&L); if (!m) continue; int w = c[in[k] / 3 % m]; sem_post(&it[w].go); rel++; }
    int want = acc < rel + nw ? acc : rel + nw, s = settle(want, rel);
    if (s) r = vp_fail(s == 3 ? "an item is executed twice or was never added" : s == 2 ? "more items were started than there are workers" : "%d items accepted, %d finished, %d workers: only %d started", acc, rel, nw, nstarted);
    for (int i = 0; i < nstarted && !r; i++) if (started[i] != order[i]) r = vp_fail("item %d was accepted as number %d, but item %d was started then", order[i], i, started[i]);
  }
  /* shut down */
  int out = acc - rel, run = out < nw ? out : nw; pthread_t t; D.p = p; D.flags = mode ? threadpool_graceful : 0; D.done = 0; pthread_create(&t, NULL, destroyer, NULL);
  if (run > 0) { /* at least one item is running: the pool cannot be gone */
    int e, tries = 0; for (;;) { e = threadpool_add(p, item, (void *)(intptr_t)(1000 + next), 0); if (e == 0) { order[acc++] = next++; out++; } if (e == threadpool_shutdown || next >= MAXI || ++tries > 3000) break; if (e == threadpool_queue_full && out - run >= nq && tries > 20) break; usleep(100); }
    if (!r && e == 0) r = vp_fail("items are accepted although the pool is shut down");
    usleep(300);
    if ((in[2] & 32) && e == threadpool_shutdown) { /* the other shutdown is known to have begun */ e = threadpool_destroy(p, in[2] & 128 ? threadpool_graceful : 0); if (!r && e != threadpool_shutdown && e != 0) r = vp_fail("second shutdown returns %d", e); } }
  for (int i = 0; i < MAXI; i++) sem_post(&it[i].go); /* everything may go */
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 8; int late = 0; pthread_mutex_lock(&L); while (!D.done && !late) if (pthread_cond_timedwait(&C, &L, &ts) == ETIMEDOUT) late = 1; pthread_mutex_unlock(&L);
  if (late) return r ? r : vp_fail("the shutdown does not return: %d of %d accepted items executed", ndone, acc);
  pthread_join(t, NULL);
  if (!r && D.ret != 0) r = vp_fail("shutdown returns %d", D.ret);
  if (!r && twice) r = vp_fail("an item is executed twice or was never added");
  if (!r && mode && ndone != acc) r = vp_fail("a graceful shutdown returned after %d of %d accepted items", ndone, acc);
  if (!r && ndone > acc) r = vp_fail("%d items executed, %d accepted", ndone, acc);
  for (int i = 0; i < MAXI; i++) sem_destroy(&it[i].go);
  return r;
}
static size_t vp_gen(uint8_t *o, uint64_t k) { size_t n = 4 + vp_below(k % 4 ? 12 : 40); for (size_t i = 0; i < n; i++) o[i] = vp_rnd(); if (k % 3 == 0) o[0] = 0; return n; }
