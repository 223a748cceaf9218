from vp.core import Job, Loop, Native, FAULTS
GV = ("g_total", "g_base", "g_head", "g_next", "g_len", "g_off", "g_sent", "g_closed", "g_failed", "g_again", "h_m", "h_s", "h_len", "vp_errno", "k_READ", "k_WRITING")
LIVE = "!g_failed && !g_again && g_head <= g_total && g_len <= g_total - g_head && h_s->event == k_READ && h_s->state == k_WRITING && !h_s->closing"
CL = "(h_m->framed && (h_m->msg[0] & 15) == 8)"
INNER = (LIVE + " && g_len == len && g_head == g_base && i < len && bytes_sent <= message_length && message_length == h_len && h_s->written == 0 && (bytes_sent < message_length ? g_sent == bytes_sent && g_next == g_head + i && !g_closed && (!closing || " + CL + ")"
         " : g_sent == 0 && g_next == g_head + i + 1 && g_closed == " + CL + " && closing == g_closed)")
MID = LIVE + " && len > 0 && (i == 0 || h_s->written == 0) && g_len == len && g_head == g_base && i <= len && closing == g_closed && g_sent == h_s->written && h_s->written < h_len && (g_closed ? g_sent == 0 : g_next == g_head + i)"
OUTER = LIVE + " && g_len == 0 && closing == g_closed && g_sent == h_s->written && h_s->written < h_len && (g_closed ? g_sent == 0 : g_next == g_head) && (g_sent == 0 || g_head < g_total)"
AI = "bytes_sent, closing, n, h_s->written, h_s->event, h_s->closing, g_sent, g_next, g_closed, g_failed, g_again, g_head, g_len, vp_errno"
AM = AI + ", i, message, message_length"
AO = AM + ", len, off, g_off, g_base"
LOC = ("bytes_sent", "closing", "n", "i", "message", "message_length", "len", "off")
JOBS = [Job("write", "write.c", "h_write", enforce="WSS_write", replace=["ringbuf_consume", "ringbuf_release", "write"], preunwind=["WSS_write.0:2"], functions=["WSS_write"], flags=["--object-bits", "12"],
            loops=[Loop("WSS_write", INNER, AI, None, locals_=("bytes_sent", "closing", "n", "i", "message_length", "len"), globals_=GV, idx=0, nloops=3),
                   Loop("WSS_write", MID, AM, "len - i", locals_=LOC[:-1], globals_=GV, idx=1, nloops=3),
                   Loop("WSS_write", OUTER, AO, "g_total - g_head", locals_=LOC, globals_=GV, idx=2, nloops=3)]),
  Job("work", "work.c", "h_work", enforce="WSS_work", replace=["WSS_session_find", "WSS_session_jobs_inc", "WSS_session_jobs_dec", "pthread_mutex_lock", "pthread_mutex_unlock", "WSS_write", "WSS_read", "WSS_ssl_handshake", "WSS_connect", "WSS_disconnect",
      "WSS_poll_set_write", "WSS_poll_set_read", "clock_gettime"], functions=["WSS_work"], backend="cadical", flags=["--object-bits", "12"])]
WORLD = ("src/worker.c", "src/session.c", "src/message.c", "src/frame.c", "src/ringbuf.c", "src/header.c", "src/utf8.c", "src/b64.c", "src/str.c", "src/alloc.c", "src/ssl.c")
WDEFS = FAULTS + ("-Dread=vp_read", "-Dwrite=vp_write", "-Dclose=vp_close", "-Dnanosleep=vp_nanosleep", "-Dpthread_cond_wait=vp_cond_wait")
WLIBS = ("-lssl", "-lcrypto")
NATIVE = [Native("write.c", list(WORLD), defs=WDEFS, libs=WLIBS, what="WSS_write and WSS_work run on sessions with up to four queued messages (framed, unframed, close frames) over a socket that splits writes anywhere, is full, is interrupted or fails; the bytes on the wire against the expected byte stream, over several calls")]

TECHNIQUE = "CBMC function and loop contracts (goto-instrument --dfcc) on WSS_write and WSS_work: the socket's contract only accepts the bytes that are due next"
NOTE = ("All obligations discharged for WSS_write over any number of queued messages, any ring capacity, any message length below 4 GiB and any sequence of partial writes, EAGAIN, EINTR and errors; and for WSS_work over any session state and event. "
        "The queue's own contract (ringbuf_consume/release) is the one proved in P15. The TLS variant (WSS_ssl_write) is only in the assumed part.")
EXPLAIN = ("write() may only be called with exactly the rest of the message that is due next in queue order and never after a close frame has been written or an error occurred; after EAGAIN the position is remembered in the session and the event asks for "
           "writability; the queue is released up to exactly the first message that is not completely written; closing is set if and only if a close frame was completely written or an error occurred. WSS_work: no access to the session after it was "
           "disconnected, the lock and the job are given back on every path, a closing session is disconnected, and what remains to be written is polled for.")
TRUSTED = ["ringbuf_consume/ringbuf_release by the contract proved in P15 (positions only)", "one stand-in message object for all queued messages (its content is arbitrary but the same; the order comes from the queue positions)", "WSS_free of written messages is a no-op in the proof (freed memory is checked in the native part)"]
ASSUME = ["a message is shorter than 4 GiB (its length is kept in an unsigned int)", "write() returns -1 or between 1 and the requested number of bytes", "TLS connections (WSS_ssl_write) are not covered", "the timeout arithmetic of WSS_work is left to the native part"]
