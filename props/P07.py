from vp.core import Job, Loop, Native, FAULTS
ENC = ("size < 8589934592ul && len <= h_len && i >= 0 && i <= 2 && src == (const unsigned char *)h_src + (h_len - len) && 3 * size == 4 * (h_len - len - i) && size % 4 == 0 && enc == h_buf && !g_gone && size <= g_size && (size == 0 ? g_size == 1 : g_size == size) && "
       "(i > 0 ==> tmp[0] == ((unsigned char *)h_src)[h_len - len - i]) && (i > 1 ==> tmp[1] == ((unsigned char *)h_src)[h_len - len - i + 1]) && (hk < size ==> ((unsigned char *)h_buf)[hk] == h_exp)")
def b64(c): return "({c} >= 65 && {c} <= 90 || {c} >= 97 && {c} <= 122 || {c} >= 48 && {c} <= 57 || {c} == 43 || {c} == 47)".replace("{c}", c)
DEC = ("size < 8589934592ul && len <= h_len && i >= 0 && i <= 3 && j >= 0 && (unsigned long)j == h_len - len && g_n == (unsigned long)j && i <= j && 4 * size == 3 * (unsigned long)(j - i) && size % 3 == 0 && dec == (unsigned char *)h_buf && !g_gone && "
       "(size == 0 ? g_size == 1 : g_size == size) && (i > 0 ==> tmp[0] == ((unsigned char *)h_src)[j - i]) && (i > 1 ==> tmp[1] == ((unsigned char *)h_src)[j - i + 1]) && (i > 2 ==> tmp[2] == ((unsigned char *)h_src)[j - i + 2]) && "
       "(hk < size ==> ((unsigned char *)h_buf)[hk] == h_full)" + "".join(" && (i > %d ==> %s)" % (k, b64("tmp[%d]" % k)) for k in range(3)))
JOBS = [
  Job("b64_decode_ex", "b64.c", "harness", enforce="b64_decode_ex", functions=["b64_decode_ex"], defs=["-DDECODE"], split=7,
      preunwind=["b64_decode_ex.0:65", "b64_decode_ex.1:5", "b64_decode_ex.2:4", "b64_decode_ex.4:4", "b64_decode_ex.5:65", "b64_decode_ex.6:5", "b64_decode_ex.7:4"],
      loops=[Loop("b64_decode_ex", DEC, "i, j, l, len, size, dec, g_n, g_size, g_oom, g_gone, __CPROVER_object_whole(tmp), __CPROVER_object_whole(buf), __CPROVER_object_whole(h_buf)", "len",
        locals_=("i", "j", "l", "size", "dec", "tmp", "buf"), params=("len",), globals_=("h_len", "h_src", "h_buf", "h_full", "hk", "g_n", "g_size", "g_oom", "g_gone"), nloops=1)]),
  Job("b64_encode", "b64.c", "harness", enforce="b64_encode", functions=["b64_encode"], split=10, preunwind=["b64_encode.0:5", "b64_encode.2:3","b64_encode.3:5","b64_encode.4:4"],
      loops=[Loop("b64_encode", ENC, "i, len, src, size, enc, g_size, g_oom, g_gone, __CPROVER_object_whole(tmp), __CPROVER_object_whole(buf), __CPROVER_object_whole(h_buf)", "len",
        locals_=("i", "size", "enc", "tmp", "buf"), params=("len", "src"), globals_=("h_len", "h_src", "h_buf", "h_exp", "hk", "g_size", "g_oom", "g_gone"), nloops=1)]),
  Job("lemma", "b64.c", "harness_lemma", dfcc=False, unwind=5),
]
NATIVE = [Native("b64.c", ["src/b64.c", "src/alloc.c"], defs=FAULTS, what="encodes and decodes concrete strings (every byte, lengths 0 to 200 and about 3000, stray characters) and compares with RFC 4648; refused allocations and leak counting")]
TECHNIQUE = "CBMC function and loop contracts (goto-instrument --dfcc) on b64_encode and b64_decode_ex of src/b64.c against RFC 4648, any length below 2^31, plus a lemma that the two specifications are inverse"
NOTE = ("All obligations discharged for every input below 2^31 bytes and every allocation failure; an arbitrary output byte is compared with RFC 4648. The loops over at most 64 table entries and 4 characters are unrolled completely before the "
        "outer loop's contract is applied. Assumes the C locale for isalnum and WSS_realloc's contract (P18).")
EXPLAIN = "Loop invariants give position, size and an arbitrary output character as a function of the bytes consumed; postconditions give exact length, terminator, content. The lemma composes encode and decode on one group."
TRUSTED = ["isalnum in the C locale", "WSS_malloc/WSS_realloc represented by their contract (P18): one harness object with a ghost size"]
ASSUME = ["inputs shorter than 2^31 bytes"]
