/* one operation at a time: a compare-and-swap succeeds exactly when the value is the expected one, fences have no effect, and nobody is
 * inside another operation, so that waiting for somebody else to clear a lock bit does not happen (instance of that assumption) */
#define atomic_compare_exchange_weak(p, e, d) (*(p) == *(e) ? (*(p) = (d), 1) : 0)
#define atomic_thread_fence(m) ((void)0)
#include "ringbuf_utils.h"
#undef SPINLOCK_BACKOFF
#define SPINLOCK_BACKOFF(count) __CPROVER_assume(0)
