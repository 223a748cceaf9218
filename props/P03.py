from vp.core import Job, Loop, Native, FAULTS
JOBS = [
  Job("decode after encode", "frame_encode.c", "harness_roundtrip", replace=["unmask"], defs=["-DVP_PREFIX"], functions=["WSS_stringify_frame", "WSS_parse_frame"], split=True),
]
NATIVE = [Native('frames.c', ['src/frame.c', 'src/alloc.c', 'src/log.c'], defs=('-DPROP=3',) + FAULTS, what='')]
NATIVE[0].what = "encodes lists of concrete frames, decodes them one after the other and compares flags, opcode and payload"
TECHNIQUE = "CBMC lemma over the real WSS_stringify_frame followed by the real WSS_parse_frame (dfcc, unmask replaced by its contract), any payload length"
NOTE = ("Proved for every frame below 2^32 payload bytes at every offset; payload bytes tracked through one arbitrary ghost address. Assumes memcpy's documented meaning and the "
        "allocator contract; unmask is represented by the contract proved in P01.")
EXPLAIN = "The lemma calls the two real functions in sequence and asserts equality of every header field, the length and an arbitrary payload byte, and that the decoder consumes exactly what the encoder produced."
TRUSTED = ["memcpy as ghost-address model in contracts/mem.h"]
ASSUME = ["payloads shorter than 2^32 bytes"]
