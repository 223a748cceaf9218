from vp.core import Job, Loop, Native, FAULTS
JOBS = [
  Job("WSS_stringify_frame", "frame_encode.c", "harness_one", enforce="WSS_stringify_frame", functions=["WSS_stringify_frame", "htonl64", "htons16"], split=True),
  Job("WSS_stringify_frames", "frame_encode.c", "harness_list", enforce="WSS_stringify_frames", replace=["WSS_stringify_frame"], defs=["-DLIST"],
      functions=["WSS_stringify_frames"], split=True, loops=[Loop("WSS_stringify_frames",
      "i <= size && g_cnt == i && message_length == g_tot && !g_err && (i == 0 ? msg == 0 && g_tot == 0 : g_tot > 0 && msg == h_buf && h_bufsize >= g_tot && h_bufsize <= h_max) && vp_g1 == 0 && "
      "(hk < g_tot ==> g_seen && *vp_g0 == g_val) && (hk >= g_tot ==> !g_seen)",
      "i, n, f, msg, message_length, g_cnt, g_tot, g_val, g_seen, g_err, vp_g1, vp_oom, h_bufsize, __CPROVER_object_whole(h_buf)", "size - i",
      locals_=("i", "n", "f", "msg", "message_length"), params=("size",), globals_=("g_cnt", "g_tot", "g_val", "g_seen", "g_err", "vp_g0", "vp_g1", "vp_oom", "h_bufsize", "h_buf", "h_max", "hk"), nloops=1)]),
]
NATIVE = [Native('frames.c', ['src/frame.c', 'src/alloc.c', 'src/log.c'], defs=('-DPROP=2',) + FAULTS, what='')]
NATIVE[0].what = "serialises concrete frames and frame lists (all lengths 0..299 and around 65536, all flags) and compares every byte with the RFC 6455 encoding; injects allocation failures and counts live blocks"
TECHNIQUE = "CBMC function contracts + loop contract (goto-instrument --dfcc) on WSS_stringify_frame / WSS_stringify_frames of src/frame.c, any payload length, any number of frames"
NOTE = ("All obligations discharged for payloads below 2^32 bytes and lists of any length (the caller is checked against WSS_stringify_frame's contract). Bytes are tracked "
        "through one arbitrary ghost address. Assumes memcpy's documented meaning and the allocator contract; the growing buffer's realloc is modelled as one object with a ghost size.")
EXPLAIN = "Contract of WSS_stringify_frame gives every output byte as a function of the frame; WSS_stringify_frames is proved against it by a loop invariant relating output position to the frames seen so far."
TRUSTED = ["memcpy as ghost-address model in contracts/mem.h", "realloc keeps the common prefix or returns NULL (WSS_realloc contract, P18)"]
ASSUME = ["payloads and output shorter than 2^32 bytes"]
