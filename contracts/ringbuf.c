/* P15: contracts of src/ringbuf.c for every capacity, number of worker records and state the operations can reach (one operation at a
 * time; interleavings inside an operation are not part of this property). The state of one arbitrary slot hk and of the records of two arbitrary workers
 * stands for all of them. */
#include "mem.h"
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <errno.h>
int vp_errno;
#undef errno
#define errno vp_errno
#include "ringbuf_utils_pre.h"
#include "ringbuf.h"
#define REACH __CPROVER_assert(0, "VP_REACH")
typedef uint64_t u64;
#define MAXO 0x7fffffffffffffffUL
#define LOCK 0x8000000000000000UL
#define OFFM 0xffffffffUL
ringbuf_t *h_rb; u64 *h_next, *h_end, *h_written, *h_ffw; size_t h_space; unsigned h_nw, h_nt;
u64 *h_reg, *h_seen; ringbuf_worker_t *h_w; unsigned hj;          /* the record an operation works on */
u64 *k_reg, *k_seen; ringbuf_worker_t *k_w; unsigned hkj;         /* the record of whoever holds slot hk */
u64 hk, g_st;                                                     /* an arbitrary slot: 0 free, 1 held, 2 produced */
u64 o_next, o_w, o_end, o_reg, o_seen, o_kreg, o_kseen, h_len, h_n; size_t *h_off; ringbuf_worker_t **h_pw;
unsigned h_type; _Bool g_none;
#define NXT (*h_next & OFFM)
#define lim(end) ((end) < h_space ? (end) : h_space)
#define wf(next, w, end) (!((next) & LOCK) && ((next) & OFFM) < h_space && (w) < h_space && ((w) <= ((next) & OFFM) ? (end) == MAXO : (end) == MAXO || ((w) <= (end) && (end) < h_space)))
#define occ(next, w, end) ((w) <= ((next) & OFFM) ? (w) <= hk && hk < ((next) & OFFM) : hk < ((next) & OFFM) || ((w) <= hk && hk < lim(end)))
/* position of slot hk in the queue, number of slots in the queue */
#define rank_(next, w, end) ((w) <= ((next) & OFFM) || hk >= (w) ? hk - (w) : lim(end) - (w) + hk)
#define count(next, w, end) ((w) <= ((next) & OFFM) ? ((next) & OFFM) - (w) : lim(end) - (w) + ((next) & OFFM))
/* the holder of slot hk is registered and protects it by what it has seen */
#define holds(next, w, end, reg, seen) (((reg) == 2 || (reg) == 3) && ((w) <= ((next) & OFFM) || hk >= (w) ? (w) <= (seen) && (seen) <= hk : (seen) <= hk || ((end) != MAXO && (seen) == (end))))
#define inv() (wf(*h_next, *h_written, *h_end) && hk < h_space && g_st <= 2 && (g_st != 0) == occ(*h_next, *h_written, *h_end) && (g_st != 1 || holds(*h_next, *h_written, *h_end, *k_reg, *k_seen)))
#define kept() (*h_reg == o_reg && *h_seen == o_seen)
#define indices_kept() (*h_next == o_next && *h_written == o_w && *h_end == o_end)
#define taken() (o_reg == 0 && *h_reg == h_type && *h_seen == MAXO)
/* what the holder of slot hk has seen lies before the end of the buffer, not in the part that was wrapped around */
#define first_lap() (*h_written <= NXT || hk >= *h_written)
#define in_range(off, n) ((off) <= hk && hk < (off) + (n))

int ringbuf_setup(ringbuf_t *rbuf, unsigned nworkers, unsigned ntempworkers, size_t length)
__CPROVER_requires(rbuf == h_rb && nworkers == h_nw && ntempworkers == h_nt && length == h_space)
__CPROVER_assigns(__CPROVER_object_whole(rbuf), vp_errno)
__CPROVER_ensures(__CPROVER_return_value == (h_space >= OFFM ? -1 : 0))
__CPROVER_ensures(h_space > 0 && h_space < OFFM ==> wf(*h_next, *h_written, *h_end) && count(*h_next, *h_written, *h_end) == 0 && *h_reg == 0 && *h_ffw == 0)
;
void ringbuf_get_sizes(unsigned nworkers, unsigned ntempworkers, size_t *ringbuf_size, size_t *ringbuf_worker_size)
__CPROVER_requires(nworkers == h_nw && ntempworkers == h_nt)
__CPROVER_assigns(ringbuf_size != NULL: *ringbuf_size; ringbuf_worker_size != NULL: *ringbuf_worker_size)
__CPROVER_ensures(ringbuf_size != NULL ==> *ringbuf_size == h_len)
;
#ifdef ACQ
/* instance of the contract below for the record that is returned */
static ringbuf_worker_t *register_worker(ringbuf_t *rbuf, unsigned registration_type)
__CPROVER_requires(rbuf == h_rb && registration_type == 3)
__CPROVER_assigns(*h_ffw, *h_reg, *h_seen)
__CPROVER_ensures(g_none ? __CPROVER_pointer_equals(__CPROVER_return_value, (ringbuf_worker_t *)NULL) : __CPROVER_pointer_equals(__CPROVER_return_value, h_w))
__CPROVER_ensures(__CPROVER_return_value == NULL ? kept() : hj >= h_nw && o_reg == 0 && *h_reg == 3 && *h_seen == MAXO)
;
#else
static ringbuf_worker_t *register_worker(ringbuf_t *rbuf, unsigned registration_type)
__CPROVER_requires(rbuf == h_rb && registration_type == h_type)
__CPROVER_assigns(__CPROVER_object_whole(rbuf))
__CPROVER_ensures(indices_kept())
__CPROVER_ensures(__CPROVER_return_value == h_w ==> hj >= h_nw && taken())
__CPROVER_ensures(__CPROVER_return_value != h_w ==> kept())
;
#endif
ringbuf_worker_t *ringbuf_register(ringbuf_t *rbuf, unsigned i)
__CPROVER_requires(rbuf == h_rb && i == hj)
__CPROVER_assigns(*h_reg, *h_seen)
__CPROVER_ensures(__CPROVER_return_value == h_w && *h_reg == 2 && *h_seen == MAXO)
;
void ringbuf_unregister(ringbuf_t *rbuf, ringbuf_worker_t *w)
__CPROVER_requires(rbuf == h_rb && w == h_w)
__CPROVER_assigns(*h_reg)
__CPROVER_ensures(*h_reg == 0)
;
ssize_t ringbuf_acquire(ringbuf_t *rbuf, ringbuf_worker_t **pw, size_t len)
__CPROVER_requires(rbuf == h_rb && pw == h_pw && len == h_len && inv())
__CPROVER_assigns(*pw, *h_next, *h_end, *h_ffw, *h_reg, *h_seen)
/* refused: nothing changed, no record kept */
__CPROVER_ensures(__CPROVER_return_value < 0 ==> __CPROVER_return_value == -1 && indices_kept() && *h_reg == o_reg && (h_type == 3 || *h_seen == o_seen) && inv() && *pw == (h_type == 3 ? NULL : h_w))
/* granted: a free range inside the buffer, appended to the queue; positions of what is queued stay */
__CPROVER_ensures(__CPROVER_return_value >= 0 ==> *pw == h_w && *h_reg == h_type && (h_type == 2 || o_reg == 0) && (size_t)__CPROVER_return_value + len <= h_space && wf(*h_next, *h_written, *h_end) && *h_written == o_w)
__CPROVER_ensures(__CPROVER_return_value >= 0 && in_range(__CPROVER_return_value, len) ==> g_st == 0 && occ(*h_next, *h_written, *h_end) && holds(*h_next, *h_written, *h_end, *h_reg, *h_seen) && rank_(*h_next, *h_written, *h_end) == count(o_next, o_w, o_end) + (hk - __CPROVER_return_value))
__CPROVER_ensures(__CPROVER_return_value >= 0 && !in_range(__CPROVER_return_value, len) ==> inv() && (g_st != 0 ==> rank_(*h_next, *h_written, *h_end) == rank_(o_next, o_w, o_end)))
__CPROVER_ensures(__CPROVER_return_value >= 0 ==> count(*h_next, *h_written, *h_end) == count(o_next, o_w, o_end) + len)
/* one slot is refused only when no record or no two free slots are left at the place where the queue grows */
__CPROVER_ensures(h_type == 2 && o_end == MAXO && count(o_next, o_w, o_end) + 2 <= h_space && len == 1 ==> __CPROVER_return_value >= 0)
;
void ringbuf_produce(ringbuf_t *rbuf, ringbuf_worker_t **pw)
__CPROVER_requires(rbuf == h_rb && pw == h_pw)
__CPROVER_assigns(*pw, *h_reg, *h_seen)
__CPROVER_ensures(*h_seen == MAXO && *h_reg == (o_reg == 3 ? 0 : o_reg) && *pw == (o_reg == 3 ? NULL : h_w))
;
size_t ringbuf_consume(ringbuf_t *rbuf, size_t *offset)
__CPROVER_requires(rbuf == h_rb && offset == h_off && inv())
__CPROVER_assigns(*h_written, *h_end, *offset)
__CPROVER_ensures(inv() && *h_next == o_next && count(*h_next, *h_written, *h_end) == count(o_next, o_w, o_end))
__CPROVER_ensures(g_st != 0 ==> rank_(*h_next, *h_written, *h_end) == rank_(o_next, o_w, o_end))
__CPROVER_ensures(__CPROVER_return_value > 0 ==> *offset == *h_written && *offset + __CPROVER_return_value <= h_space && *offset + __CPROVER_return_value <= *h_end)
/* only produced entries, the oldest ones */
__CPROVER_ensures(__CPROVER_return_value > 0 && in_range(*offset, __CPROVER_return_value) ==> g_st == 2 && rank_(o_next, o_w, o_end) == hk - *offset)
__CPROVER_ensures(__CPROVER_return_value > 0 && g_st == 1 && first_lap() ==> *offset + __CPROVER_return_value <= *k_seen)
#ifdef IDLE
/* every producer is done except possibly hj: everything up to what hj holds is handed out (in at most two pieces) */
__CPROVER_ensures(count(o_next, o_w, o_end) > 0 && (*h_reg == 0 || *h_seen == MAXO) ==> __CPROVER_return_value == (*h_written <= NXT ? NXT - *h_written : lim(*h_end) - *h_written) && __CPROVER_return_value > 0)
__CPROVER_ensures(__CPROVER_return_value == 0 && g_st == 2 && occ(o_next, o_w, o_end) && rank_(o_next, o_w, o_end) == 0 ==> *h_reg != 0 && *h_seen != MAXO && (*h_seen == hk || *h_seen >= o_w))
#endif
;
void ringbuf_release(ringbuf_t *rbuf, size_t nbytes)
__CPROVER_requires(rbuf == h_rb && nbytes == h_n && inv())
__CPROVER_assigns(*h_written)
__CPROVER_ensures(wf(*h_next, *h_written, *h_end))
__CPROVER_ensures(occ(*h_next, *h_written, *h_end) == (occ(o_next, o_w, o_end) && rank_(o_next, o_w, o_end) >= h_n))
__CPROVER_ensures(occ(*h_next, *h_written, *h_end) ==> rank_(*h_next, *h_written, *h_end) == rank_(o_next, o_w, o_end) - h_n && (g_st != 1 || holds(*h_next, *h_written, *h_end, *k_reg, *k_seen)))
;
#include "src/ringbuf.c"
static void state(void) {
  h_nw = nondet_uint(); h_nt = nondet_uint(); __CPROVER_assume(h_nw < (1u << 30) && h_nt < (1u << 30) && h_nw + h_nt > 0);
  size_t sz = offsetof(ringbuf_t, workers) + ((size_t)h_nw + h_nt) * sizeof(ringbuf_worker_t);
#ifdef SEP
  sz = offsetof(ringbuf_t, workers);
#endif
#ifdef IDLE
  h_rb = calloc(1, sz);
#else
  h_rb = malloc(sz);
#endif
  __CPROVER_assume(h_rb != NULL);
  h_next = (u64 *)&h_rb->next; h_end = &h_rb->end; h_written = &h_rb->written; h_ffw = &h_rb->first_free_worker;
  hj = nondet_uint(); hkj = nondet_uint(); __CPROVER_assume(hj < h_nw + h_nt && hkj < h_nw + h_nt);
#ifdef IDLE
  __CPROVER_assume(hj == hkj);
#endif
#ifdef SEP /* the operation works on one record, wherever it is */
  h_w = malloc(sizeof *h_w); __CPROVER_assume(h_w != NULL); k_w = h_w; if (hj != hkj) { k_w = malloc(sizeof *k_w); __CPROVER_assume(k_w != NULL); }
#else
  h_w = &h_rb->workers[hj]; k_w = &h_rb->workers[hkj];
#endif
  h_reg = &h_w->registered; h_seen = (u64 *)&h_w->seen_off; k_reg = &k_w->registered; k_seen = (u64 *)&k_w->seen_off;
  h_space = nondet_size_t(); h_rb->nworkers = h_nw; h_rb->ntempworkers = h_nt; h_rb->space = h_space; *h_next = nondet_size_t(); *h_end = nondet_size_t(); *h_written = nondet_size_t();
#ifdef IDLE
  *h_reg = nondet_size_t(); *h_seen = nondet_size_t(); __CPROVER_assume(*h_reg == 0 || *h_reg == 2 || *h_reg == 3);
#endif
  hk = nondet_size_t(); g_st = nondet_size_t(); __CPROVER_assume(h_space > 0 && h_space < OFFM); __CPROVER_assume(!(*h_seen & LOCK)); }
static void old(void) { o_next = *h_next; o_end = *h_end; o_w = *h_written; o_reg = *h_reg; o_seen = *h_seen; o_kreg = *k_reg; o_kseen = *k_seen; }
void h_setup(void) { state(); h_space = nondet_size_t(); old(); ringbuf_setup(h_rb, h_nw, h_nt, h_space); REACH; }
void h_sizes(void) { h_nw = nondet_uint(); h_nt = nondet_uint(); __CPROVER_assume(h_nw < (1u << 30) && h_nt < (1u << 30)); h_len = offsetof(ringbuf_t, workers) + ((size_t)h_nw + h_nt) * sizeof(ringbuf_worker_t); size_t a, b; ringbuf_get_sizes(h_nw, h_nt, nondet_bool() ? &a : NULL, nondet_bool() ? &b : NULL); REACH; }
void h_register_worker(void) { state(); h_type = nondet_uint(); __CPROVER_assume(h_type == 2 || h_type == 3); __CPROVER_assume(h_nt > 0); old(); register_worker(h_rb, h_type); REACH; }
void h_register(void) { state(); __CPROVER_assume(hj < h_nw); old(); ringbuf_register(h_rb, hj); REACH; }
void h_unregister(void) { state(); old(); ringbuf_unregister(h_rb, h_w); REACH; }
void h_acquire(void) {
  state(); ringbuf_worker_t *p; h_pw = &p; h_len = nondet_size_t(); __CPROVER_assume(h_len > 0 && h_len <= h_space);
  if (nondet_bool()) { p = NULL; h_type = 3; __CPROVER_assume(*h_reg == 0); } else { p = h_w; h_type = 2; __CPROVER_assume(*h_reg == 2 && *h_seen == MAXO); }
  __CPROVER_assume(inv()); g_none = nondet_bool(); __CPROVER_assume(g_st != 1 || hkj != hj); /* whoever holds a slot is not idle */
  old(); ringbuf_acquire(h_rb, h_pw, h_len); REACH; }
void h_produce(void) { state(); ringbuf_worker_t *p = h_w; h_pw = &p; __CPROVER_assume((*h_reg == 2 || *h_reg == 3) && *h_seen != MAXO); old(); ringbuf_produce(h_rb, h_pw); REACH; }
void h_consume(void) { state(); size_t o; h_off = &o; __CPROVER_assume(inv());
#ifdef IDLE
  /* what hj has seen lies in the queue: it acquired there */
  __CPROVER_assume(*h_reg == 0 || *h_seen == MAXO || (*h_written <= NXT ? *h_written <= *h_seen && *h_seen < NXT : *h_seen < NXT || (*h_written <= *h_seen && *h_seen <= lim(*h_end))));
#endif
  old(); ringbuf_consume(h_rb, h_off); REACH; }
void h_release(void) { state(); h_n = nondet_size_t(); __CPROVER_assume(inv() && h_n <= h_space && *h_written + h_n <= lim(*h_end) && (*h_written > NXT || *h_written + h_n <= NXT)); __CPROVER_assume(g_st != 1 || (first_lap() ? *h_written + h_n <= *k_seen : 1)); /* what consume handed out */
  old(); ringbuf_release(h_rb, h_n); REACH; }
