from vp.core import Job, Loop, Native, FAULTS
GV = ("G", "h_s", "h_fd", "h_o", "h_fra", "h_fr", "h_nfr", "h_msgs", "h_msg", "h_nmsgs", "h_hj", "h_null", "h_hdr", "h_extn")
DL = [Loop("session_delete", "j <= session->frames_length && G.nfr == j && G.fra == 0 && session == h_s && G.self == 0", "j, G.nfr", "session->frames_length - j", locals_=("j",), params=("session",), globals_=GV, idx=0, nloops=3),
      Loop("session_delete", "j <= session->header->ws_extensions_count && G.closes == j && session == h_s && G.hdr == 0", "j, G.closes", "session->header->ws_extensions_count - j", locals_=("j",), params=("session",), globals_=GV, idx=1, nloops=3),
      Loop("session_delete", "0 <= i && i <= session->messages_count && G.nmsg == i - (h_null < i) && session == h_s && !G.msgfree && G.slot == (h_hj < i && h_hj != h_null)", "i, G.nmsg, G.slot, G.msgfree", "session->messages_count - i", locals_=("i",), params=("session",), globals_=GV, idx=2, nloops=3)]
JOBS = [
  Job("find", "session.c", "h_find", enforce="WSS_session_find", functions=["WSS_session_find"]),
  Job("add", "session.c", "h_add", enforce="WSS_session_add", defs=["-DADD"], functions=["WSS_session_add"]),
  Job("inc", "session.c", "h_inc", enforce="WSS_session_jobs_inc", defs=["-DCOUNT"], functions=["WSS_session_jobs_inc"]),
  Job("dec", "session.c", "h_dec", enforce="WSS_session_jobs_dec", defs=["-DCOUNT"], functions=["WSS_session_jobs_dec"]),
  Job("wait", "session.c", "h_wait", enforce="WSS_session_jobs_wait", defs=["-DCOUNT"], functions=["WSS_session_jobs_wait"],
      loops=[Loop("WSS_session_jobs_wait", "session == h_s && G.job == 1 && session->jobs >= 0 && session->jobs == G.o_jobs", "session->jobs, G.o_jobs", None, params=("session",), globals_=GV, idx=0, nloops=1)]),
  Job("disconnecting", "session.c", "h_disc", enforce="WSS_session_is_disconnecting", defs=["-DCOUNT"], functions=["WSS_session_is_disconnecting"]),
  Job("delete", "session.c", "h_delete", enforce="WSS_session_delete", defs=["-DDELETE"], functions=["WSS_session_delete", "session_delete"], loops=DL, rmfp=True),
  Job("delete_all", "session.c", "h_delete_all", enforce="WSS_session_delete_all", replace=["session_delete"], defs=["-DALL"], functions=["WSS_session_delete_all"],
      loops=[Loop("WSS_session_delete_all", "G.rw == 2 && !G.fails && (session == (void*)0 || session == h_s || session == h_o) && G.removed == (G.seen && session != h_s) && (session == h_s ==> G.seen) && (G.seen ==> G.o_ent == h_s) && (G.removed ==> G.ent == (void*)0) && (G.removed == 0 ==> G.ent == G.o_ent) && (session != (void*)0 ==> !G.over) && (session == (void*)0 ==> G.over && (G.seen || G.o_ent == (void*)0)) && (G.o_ent == (void*)0 || G.o_ent == h_s)", "session, tmp, tmp_err, err, G", None, locals_=("session", "tmp", "tmp_err", "err"), globals_=GV, idx=0, nloops=1)]),
  Job("all", "session.c", "h_all", enforce="WSS_session_all", defs=["-DALL"], functions=["WSS_session_all"], rmfp=True,
      loops=[Loop("WSS_session_all", "G.rw == 1 && !G.fails && (session == (void*)0 || session == h_s || session == h_o) && G.cbs == (G.seen && session != h_s) && (session == h_s ==> G.seen) && (G.seen ==> G.o_ent == h_s) && (session != (void*)0 ==> !G.over) && (session == (void*)0 ==> G.over && (G.seen || G.o_ent == (void*)0)) && (G.o_ent == (void*)0 || G.o_ent == h_s) && G.ent == G.o_ent", "session, tmp, G", None, locals_=("session", "tmp"), globals_=GV, idx=0, nloops=1)]),
  Job("ssl_free", "ssl.c", "h_ssl_free", enforce="WSS_session_ssl_free", defs=["-DUSE_OPENSSL"], functions=["WSS_session_ssl_free"],
      loops=[Loop("WSS_session_ssl_free", "g_free == 0", "err, __CPROVER_object_whole(message)", None, locals_=("err", "message"), globals_=("g_free",), idx=0, nloops=1)]),
]
WORLD = ("src/worker.c", "src/session.c", "src/message.c", "src/frame.c", "src/ringbuf.c", "src/header.c", "src/utf8.c", "src/b64.c", "src/str.c", "src/alloc.c", "src/ssl.c")
NATIVE = [Native("session.c", list(WORLD), defs=FAULTS + ("-Dread=vp_read", "-Dwrite=vp_write", "-Dclose=vp_sclose", "-Dnanosleep=vp_nanosleep", "-Dpthread_cond_wait=vp_cond_wait", "-Dpthread_rwlock_wrlock=vp_wrlock",
    "-include", "alloc.h", "-Duthash_malloc(z)=aligned_alloc(16,((z)+15)/16*16)", "-Duthash_free(p,z)=do{void*u_=reallocarray((p),0,0);(void)u_;}while(0)"), libs=("-lssl", "-lcrypto"),
    what="sequences of additions, look-ups, deletions and job counts on up to 24 descriptors with additions by another thread in between, refused allocations and sessions that own frames, messages, headers and half-read requests")]
TECHNIQUE = "CBMC function and loop contracts (goto-instrument --dfcc) on every function of src/session.c over an abstract map, with lock ghosts: other threads may change the table and the counters whenever their lock is not held"
NOTE = ("All obligations discharged for any number of sessions, frames, messages and extensions and any interleaving at the granularity of the locks; the hash table macros (uthash) are represented by their meaning as a map with one arbitrary watched descriptor. "
        "The cleanup thread's deletions under a read lock (WSS_session_all with WSS_session_delete_no_lock) are outside the claim.")
EXPLAIN = ("The table is searched only under its lock and changed only under its write lock; a descriptor is added only if it was not in the table at that moment, and what is returned is what is found; deletion removes exactly that session once and releases "
           "each frame (with its payload), message, buffer, header and TLS state exactly once, the session last, and closes the descriptor once. Job counting changes the counter by exactly one under its lock and wakes the waiter at zero; waiting returns only at zero.")
TRUSTED = ["uthash's macros as a map (the native part uses the real ones)", "pthread locks and conditions, OpenSSL's SSL_shutdown/SSL_free as stub bodies in contracts/session.c and contracts/ssl.c", "WSS_free_frame, WSS_free_header release what they are given (native part, P26)"]
ASSUME = ["mutual exclusion by pthread locks", "a session whose job count is decremented was counted before (WSS_work, WSS_message_send: P14, P26)"]
