from vp.core import Job, Loop, Native, FAULTS
G = ("h_p", "g_lock", "g_pend", "g_exit", "h_size", "o_count", "o_head", "o_tail", "o_shut", "o_started", "p_count", "p_head", "p_tail", "p_shut", "p_started", "h_q", "g_arg", "g_lockfail", "g_first", "g_joined", "g_bcast", "g_joinfail", "p_tc", "g_freed")
INV = "0 <= *p_count && *p_count <= h_size && 0 <= *p_head && *p_head < h_size"
SN = "*p_count == o_count && *p_head == o_head && *p_tail == o_tail && *p_shut == o_shut && *p_started == o_started"
ST = "*p_count, *p_head, *p_tail, *p_shut, *p_started, __CPROVER_object_whole(h_q), o_count, o_head, o_tail, o_shut, o_started, g_arg"
TL = [Loop("threadpool_thread", "g_lock == 0 && !g_pend && !g_exit", ST + ", task, g_lock, g_first, g_pend, g_wait", None, locals_=("task",), globals_=G + ("g_wait",), idx=0, nloops=1)]
JOBS = [
  Job("add", "pool.c", "h_add", enforce="threadpool_add", defs=["-DADD"], functions=["threadpool_add"]),
  Job("thread", "pool.c", "h_thread", enforce="threadpool_thread", defs=["-DTHREAD"], functions=["threadpool_thread"], loops=TL, rmfp=True, remove=["threadpool_create"], preunwind=["threadpool_thread.0:3"]),
  Job("destroy", "pool.c", "h_destroy", enforce="threadpool_destroy", replace=["threadpool_free"], functions=["threadpool_destroy"],
      loops=[Loop("threadpool_destroy", "0 <= i && i <= *p_tc && g_joined == i && g_lock == 0 && g_bcast == 1 && (err == 0) == !g_joinfail && (err == 0 || err == -5)", "i, err, g_joined, g_joinfail", "*p_tc - i", locals_=("i", "err"), globals_=G, idx=0, nloops=2)], preunwind=[]),
  Job("create", "pool.c", "h_create", enforce="threadpool_create", replace=["threadpool_free", "threadpool_destroy"], defs=["-DCREATE"], functions=["threadpool_create"],
      loops=[Loop("threadpool_create", "0 <= i && i <= g_nthreads && g_created == i && !g_destroyed && !g_freed && pool->thread_count == i && pool->started == i && (i == 0 || h_p == pool) && pool->count == 0 && pool->head == 0 && pool->tail == 0 && pool->shutdown == 0 && pool->queue_size == h_size", "i, g_created, h_p, pool->thread_count, pool->started", "g_nthreads - i", locals_=("i", "pool"), globals_=("g_created", "g_destroyed", "g_freed", "h_p", "g_nthreads", "h_size"), idx=0, nloops=1)]),
  Job("free", "pool.c", "h_free", enforce="threadpool_free", defs=["-DFREE"], functions=["threadpool_free"]),
]
NATIVE = [Native("pool.c", ["src/pool.c", "src/alloc.c"], libs=("-lpthread",), what="sequences of additions, completions and shutdowns with one to four workers and queues of one to six items, each item under the control of the case")]
TECHNIQUE = "CBMC function and loop contracts (goto-instrument --dfcc) on every function of src/pool.c, with a lock ghost: the queue may change arbitrarily, within its invariant, whenever the lock is not held"
NOTE = ("All obligations discharged for any queue size, any number of workers and any interleaving at the granularity of the lock (the world changes arbitrarily within the queue invariant whenever the lock is taken or waited on). "
        "Termination of the shutdown under a real scheduler is exercised natively, not proved.")
EXPLAIN = ("Additions append exactly one item at the tail of the ring or are refused with a code and no change; a worker takes exactly the item at the head, runs it without the lock, exactly once, before it takes another; it leaves only when a shutdown "
           "was ordered and, if graceful, when nothing is queued. Shutdown wakes everybody, joins every started worker before anything is released, and a second shutdown is refused with the lock released.")
TRUSTED = ["pthread mutex, condition variable, create and join as stub bodies that state their documented effect in contracts/pool.c", "rpmalloc thread initialisation"]
ASSUME = ["mutual exclusion by pthread mutexes (rely: other threads keep the queue invariant that each of these functions is shown to keep)"]
