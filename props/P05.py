from vp.core import Job, Loop, Native, FAULTS
JOBS = [
  Job("WSS_closing_frame", "frame_create.c", "harness_closing", enforce="WSS_closing_frame", defs=["-DVP_PREFIX"], functions=["WSS_closing_frame"], split=True, unwind=126),
  Job("WSS_ping_frame", "frame_create.c", "harness_ping", enforce="WSS_ping_frame", functions=["WSS_ping_frame", "random_bytes"], split=True, unwind=126),
  Job("WSS_pong_frame", "frame_create.c", "harness_pong", enforce="WSS_pong_frame", functions=["WSS_pong_frame"], split=True),
]
NATIVE = [Native('frames.c', ['src/frame.c', 'src/alloc.c', 'src/log.c'], defs=('-DPROP=5',) + FAULTS, what='')]
NATIVE[0].what = "builds concrete close, ping and pong frames (all codes 990..1029, reason lengths 0..400 including multi-byte characters) with allocation failures and leak counting"
TECHNIQUE = "CBMC function contracts (goto-instrument --dfcc) on WSS_closing_frame, WSS_ping_frame, random_bytes and WSS_pong_frame of src/frame.c"
NOTE = ("All obligations discharged for every close code, every reason text below 2^32 bytes and every ping. The reason's bytes are tracked through one arbitrary ghost address; loops of at most 125 iterations are "
        "unrolled completely (the unwinding assertions are part of the obligations). Assumes strlen's and memcpy's documented meaning and the allocator contract.")
EXPLAIN = "Postconditions state flags, opcode, length bound, code bytes and reason bytes of the returned frame; the pong's payload is the ping's."
TRUSTED = ["memcpy as ghost-address model in contracts/mem.h; strlen as the position of the first NUL of the harness object", "rand() returns any non-negative int"]
ASSUME = ["reason texts shorter than 2^32 bytes"]
