from vp.core import Job, Loop, Native, FAULTS
from props.P14 import WORLD, WDEFS, WLIBS
GV = ("G", "h_s", "h_count", "h_exts")
W = Loop("WSS_message_send_frames", "G.jobs == 1 && G.lock == 0 && G.q == 1 && G.write == 0", "G.lock, G.seen, h_s->state", None, globals_=GV, idx=0, nloops=1)
EX = [Loop("WSS_message_send_frames", "j <= h_exts && k <= h_count && !G.out && (k < h_count ? G.of == j + 1 && G.ofr == k : G.of == j + 1 && G.ofr == 0) && j < h_exts", "k, G.ofr", "h_count - k", locals_=("j", "k"), globals_=GV, idx=0, nloops=3),
      Loop("WSS_message_send_frames", "j <= h_exts && !G.out && G.of == j && G.ofr == 0", "j, k, G.of, G.ofr", "h_exts - j", locals_=("j", "k"), globals_=GV, idx=1, nloops=3),
      Loop(W.fn, W.inv, W.assigns, None, globals_=GV, idx=2, nloops=3)]
EX2 = [Loop(W.fn, W.inv, W.assigns, None, globals_=GV, idx=0, nloops=1)]
RS = ["WSS_session_jobs_dec", "WSS_stringify_frames", "ringbuf_acquire", "ringbuf_produce", "WSS_write", "WSS_poll_set_write"]
OB = ["--object-bits", "12"]
JOBS = [Job("send_frames", "message.c", "h_send_frames", enforce="WSS_message_send_frames", replace=RS, loops=EX, defs=["-DEXTS"], functions=["WSS_message_send_frames", "WSS_message_free"], flags=OB, rmfp=True, backend="cadical"),
        Job("send_frames_plain", "message.c", "h_send_frames", enforce="WSS_message_send_frames", replace=RS, loops=EX2, preunwind=["WSS_message_send_frames.0:1", "WSS_message_send_frames.1:1"], functions=["WSS_message_send_frames", "WSS_message_free"], flags=OB, backend="cadical"),
        Job("send", "message.c", "h_send", enforce="WSS_message_send", replace=["WSS_session_find", "WSS_session_jobs_inc", "WSS_session_jobs_dec", "WSS_create_frames", "WSS_message_send_frames", "WSS_free_frame"], defs=["-DSEND"], functions=["WSS_message_send"], flags=OB,
            loops=[Loop("WSS_message_send", "k <= frames_count && frames_count == h_count && G.freed == k", "k, G.freed", "frames_count - k", locals_=("k", "frames_count"), globals_=GV, idx=0, nloops=1)])]
NATIVE = [Native("message.c", list(WORLD), defs=WDEFS, libs=WLIBS, what="WSS_message_send and WSS_message_send_frames on sessions in every state with failing allocations, full queues, extensions and sockets that take part of the bytes: what is on the wire or in the queue, jobs, locks, leaks")]

TECHNIQUE = "CBMC function and loop contracts (goto-instrument --dfcc) on WSS_message_send and WSS_message_send_frames with ghost accounting of the job, the lock, the buffers and the queue entry"
NOTE = ("All obligations discharged for any number of frames, any number of extensions, any queue capacity and any session state, with the state changed by other threads at every acquisition of the lock. Termination of the wait for another thread to "
        "leave the session's READING/CONNECTING state is not decided (it depends on that thread).")
EXPLAIN = ("Every frame passes every extension in order before serialising; exactly one entry enters the queue, it holds the one buffer with the serialised frames and its exact length, and only when serialising, allocating and acquiring succeeded; on any "
           "failure nothing is queued and everything is released once. The job is given back exactly once on every path, the lock is never held on return; the queued message is written here (with the descriptor polled if it was not taken whole), or the "
           "session is already being written or closed. WSS_message_send sends only to a known, handshaked session and releases every frame and the list once.")
TRUSTED = ["WSS_session_find, WSS_session_jobs_inc/dec by contract (P17)", "WSS_create_frames, WSS_stringify_frames by contract (P04, P02)", "ringbuf_acquire/produce by contract (P15)", "pthread_mutex_lock/unlock, nanosleep, WSS_malloc as contracts written as code; WSS_free as a stub that checks what is released"]
ASSUME = ["the extensions' outframe(s) callbacks only change the frames they are given"]
