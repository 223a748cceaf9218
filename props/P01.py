from vp.core import Job, Loop, Native
UNM = dict(fn="unmask", nloops=1,
    inv="i <= frame->applicationDataLength && i % {W} == 0 && (gk < frame->applicationDataLength ==> "
        "(unsigned char)applicationData[gk] == (gk < i ? (unsigned char)(gold ^ (unsigned char)frame->maskingKey[gk % 4]) : gold))",
    dec="frame->applicationDataLength - i", locals_=("i", "applicationData", "masked_data"), params=("frame",), globals_=("gk", "gold", "vp_g1"))
def unm(w):
    d = dict(UNM); d["inv"] = "vp_g1 == 0 && " + d["inv"].replace("{W}", str(w))
    d["assigns"] = "i, masked_data, vp_g1, __CPROVER_object_whole(applicationData)"
    return Loop(**d)
JOBS = [
  Job("unmask[avx2]", "frame_decode.c", "harness_unmask", enforce="unmask", loops=[unm(32)], functions=["unmask"]),
  Job("unmask[sse2]", "frame_decode.c", "harness_unmask", enforce="unmask", loops=[unm(16)], functions=["unmask (SSE2 variant)"], simd="sse2"),
  Job("WSS_parse_frame", "frame_decode.c", "harness_parse", enforce="WSS_parse_frame", replace=["unmask"], functions=["WSS_parse_frame", "htonl64", "htons16"], split=True),
]
NATIVE = [Native("P01.c", ["src/frame.c", "src/alloc.c", "src/log.c"], what="parses concrete frames (all lengths 0..299 and around 65536, all length encodings, truncations, lengths near 2^64) and compares every field with RFC 6455")]
TECHNIQUE = "CBMC function contracts + loop contracts (goto-instrument --dfcc) on src/frame.c, unbounded payload"
NOTE = ("Every obligation of unmask (AVX2 and SSE2 builds) and WSS_parse_frame is discharged for all inputs shorter than 2^32 bytes; payload bytes "
        "are tracked through one arbitrary ghost address. Assumes the SIMD intrinsics and memcpy have their documented meaning; allocation is represented by the allocator's contract (P18).")
EXPLAIN = "Contracts on unmask() and WSS_parse_frame() enforced by dfcc on the current source; the caller is checked against unmask's contract."
TRUSTED = ["x86 intrinsics _mm256_loadu_si256/_mm256_storeu_si256/_mm256_xor_si256/_mm256_setr_epi8 and their SSE2 forms as bit-vector models in inc/x86intrin.h",
           "memcpy represented by ghost-address model in contracts/mem.h"]
ASSUME = ["buffers shorter than 2^32 bytes", "allocator represented by its contract (established by P18)"]
