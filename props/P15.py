from vp.core import Job, Loop, Native, FAULTS
RW2 = "*h_next == o_next && *h_end == o_end && *h_written == o_w && rbuf->ntempworkers == h_nt && rbuf->nworkers == h_nw"
RW = ("(acquired == 0 || acquired == 1) && i <= rbuf->ntempworkers && (acquired == 0 ==> *h_reg == o_reg && *h_seen == o_seen) && (acquired != 0 ==> w != (void*)0 && (w == h_w ? hj >= h_nw && o_reg == 0 && *h_reg == registration_type"
      " && *h_seen == 0x7fffffffffffffffUL : *h_reg == o_reg && *h_seen == o_seen)) && " + RW2)
RWO = RW.replace("i <= rbuf->ntempworkers && ", "")
G = ("h_reg", "h_seen", "o_reg", "o_seen", "h_next", "h_end", "h_written", "o_next", "o_end", "o_w", "h_nt", "h_nw", "h_w", "hj")
CI = ("ready >= written && written <= 0x7fffffffffffffffUL && ((ready == 0x7fffffffffffffffUL || ready < 0x8000000000000000UL)) && i <= total_workers && (hkj < i && (*k_reg == 2 || *k_reg == 3) && *k_seen >= written ==> ready <= *k_seen)")
CII = "i <= total_workers && ready == ((hj < i && *h_reg != 0 && *h_seen >= written) ? *h_seen : 0x7fffffffffffffffUL)"
GC = ("hkj", "k_reg", "k_seen", "hj", "h_reg", "h_seen")
CL = [Loop("ringbuf_consume", CI, "i, ready", "total_workers - i", locals_=("i", "ready", "written", "total_workers"), globals_=GC, idx=k, nloops=2) for k in (0, 1)]
CLI = [Loop("ringbuf_consume", CII, "i, ready", "total_workers - i", locals_=("i", "ready", "written", "total_workers"), globals_=GC, idx=k, nloops=2) for k in (0, 1)]
JOBS = [
  Job("setup", "ringbuf.c", "h_setup", enforce="ringbuf_setup", functions=["ringbuf_setup"]),
  Job("sizes", "ringbuf.c", "h_sizes", enforce="ringbuf_get_sizes", functions=["ringbuf_get_sizes"]),
  Job("register", "ringbuf.c", "h_register", enforce="ringbuf_register", functions=["ringbuf_register"]),
  Job("unregister", "ringbuf.c", "h_unregister", enforce="ringbuf_unregister", functions=["ringbuf_unregister"]),
  Job("acquire", "ringbuf.c", "h_acquire", enforce="ringbuf_acquire", replace=["register_worker"], defs=["-DACQ", "-DSEP"], preunwind=["ringbuf_acquire.0:2", "stable_nextoff.0:2"], functions=["ringbuf_acquire", "stable_nextoff"]),
  Job("produce", "ringbuf.c", "h_produce", enforce="ringbuf_produce", defs=["-DSEP"], functions=["ringbuf_produce"]),
  Job("release", "ringbuf.c", "h_release", enforce="ringbuf_release", defs=["-DSEP"], functions=["ringbuf_release"]),
  Job("register_worker", "ringbuf.c", "h_register_worker", enforce="register_worker", functions=["register_worker"],
      loops=[Loop("register_worker", RW, "i, w, acquired, state, prev_free_worker, __CPROVER_object_whole(rbuf)", None, locals_=("i", "w", "acquired", "prev_free_worker", "state"), params=("rbuf", "registration_type"), globals_=G, idx=0, nloops=2),
             Loop("register_worker", RWO, "w, acquired, state, __CPROVER_object_whole(rbuf)", None, locals_=("w", "acquired", "state"), params=("rbuf", "registration_type"), globals_=G, idx=1, nloops=2)], timeout=400),
  Job("consume", "ringbuf.c", "h_consume", enforce="ringbuf_consume", functions=["ringbuf_consume", "stable_nextoff"], preunwind=["ringbuf_consume.0:2", "ringbuf_consume.2:2", "stable_nextoff.0:2"], defs=["-DNOIDX"],
      loops=CL, timeout=300),
  Job("consume_idle", "ringbuf.c", "h_consume", enforce="ringbuf_consume", functions=["ringbuf_consume", "stable_nextoff"], preunwind=["ringbuf_consume.0:2", "ringbuf_consume.2:2", "stable_nextoff.0:2"], defs=["-DIDLE"],
      loops=CLI, timeout=300),
]
NATIVE = [Native("ringbuf.c", ["src/ringbuf.c"], what="sequences of acquire, produce, consume and release by up to ten producers (permanent and temporary records, refusals, wrap-arounds) against a model that knows the state of every slot")]
TECHNIQUE = "CBMC function and loop contracts (goto-instrument --dfcc) on every function of src/ringbuf.c with a representation invariant over the queue positions, any capacity and any number of worker records"
NOTE = ("All obligations discharged for every capacity below 2^32-1, every number of records and every state that satisfies the representation invariant, which every operation is shown to keep; one operation at a time (interleavings inside an "
        "operation are P27, not claimed). The state of one arbitrary slot and of its holder stands for all of them.")
EXPLAIN = ("Representation invariant: slot hk is in use exactly when it lies between written and next (with wrap-around), and whoever holds it protects it by its seen offset. acquire appends free slots at the end of the queue, consume hands out produced "
           "slots from its front in order and never a held one, release removes them; queue positions of all other slots are shown unchanged. With all producers idle but one, everything up to what that one holds is handed out.")
TRUSTED = ["compare-and-swap, fences and the spin loops as in contracts/ringbuf_utils_pre.h (one operation at a time)"]
ASSUME = ["operations do not overlap in time", "fewer than 2^31 worker records"]
