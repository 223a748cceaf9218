from vp.core import Job, Loop, Native
def inv(w):
    lanes = "(has_error != 0 || (" + " && ".join("(signed char)(previous.carried_continuations >> %d) <= 9" % (8 * k) for k in range(w)) + "))"
    m = "previous.carried_continuations"
    c31, c30 = ["((signed char)(%s >> %d))" % (m, 8 * (w - 1 - k)) for k in (0, 1)]
    return (("i <= len && i %% %d == 0 && g_pos == i && !g_tail && g_st <= 9 && (g_st == 9 ==> {a} == 2 && {b} >= 0 && {b} <= 2 && (g_prev == 0xC0 || g_prev == 0xC1)) && (has_error != 0) == (g_st == 8) && "
      "(unsigned char)(previous.rawbytes >> %d) == g_prev && (unsigned char)(previous.high_nibbles >> %d) == (g_prev >> 4) && "
      "(g_st == 0 ==> {a} >= 0 && {a} <= 1 && {b} >= 0 && {b} <= 2 && g_prev < 0xC0) && "
      "(g_st == 1 ==> {a} == 2 && {b} >= 0 && {b} <= 3 && g_prev != 0xE0 && g_prev != 0xED && g_prev < 0xE0 && g_prev != 0xC0 && g_prev != 0xC1 && g_prev >= 0x80) && "
      "(g_st == 2 ==> {a} == 3 && ({b} == 4 || {b} >= 0 && {b} <= 1) && g_prev >= 0x80 && g_prev < 0xF0 && g_prev != 0xE0 && g_prev != 0xED && g_prev != 0xC0 && g_prev != 0xC1 ) && "
      "(g_st == 3 ==> {a} == 4 && {b} >= 0 && {b} <= 1 && g_prev >= 0xF1 && g_prev <= 0xF3) && "
      "(g_st == 4 ==> {a} == 3 && {b} >= 0 && {b} <= 1 && g_prev == 0xE0) && (g_st == 5 ==> {a} == 3 && {b} >= 0 && {b} <= 1 && g_prev == 0xED) && "
      "LANES && (g_st == 6 ==> {a} == 4 && {b} >= 0 && {b} <= 1 && g_prev == 0xF0) && (g_st == 7 ==> {a} == 4 && {b} >= 0 && {b} <= 1 && g_prev == 0xF4)"
      ).replace("{a}", c31).replace("{b}", c30) % (w, 8 * (w - 1), 8 * (w - 1))).replace("LANES", lanes)
def job(simd, w):
    return Job("utf8_check[%s]" % simd, "utf8.c", "harness", enforce="utf8_check", simd=simd, split=7, functions=["utf8_check (%s)" % simd], timeout=150,
      loops=[Loop("utf8_check", inv(w), "i, previous, has_error, g_pos, g_st, g_prev", "len - i", locals_=("i", "previous", "has_error"), params=("len",), globals_=("g_pos", "g_st", "g_prev", "g_tail"), nloops=1)])
JOBS = [job("avx2", 32), job("sse2", 16),
  Job("shiftless_updatestate", "utf8_dfa.c", "harness_step", enforce="shiftless_updatestate", simd="none", defs=["-DSTEP"], functions=["shiftless_updatestate (portable)"]),
  Job("utf8_check[portable]", "utf8_dfa.c", "harness", enforce="utf8_check", replace=["shiftless_updatestate"], simd="none", functions=["utf8_check (portable)"],
      loops=[Loop("utf8_check", "i <= len && g_pos == i && g_st <= 9 && state <= 0x80 && state % 16 == 0 && "
        "(state == 0 ? 0 : state == 0x10 ? 8 : state == 0x20 ? 1 : state == 0x30 ? 2 : state == 0x40 ? 4 : state == 0x50 ? 5 : state == 0x60 ? 6 : state == 0x70 ? 3 : 7) == (g_st == 9 ? 8 : g_st)",
        "i, byteval, state, g_st, g_pos", "len - i", locals_=("i", "byteval", "state"), params=("len",), globals_=("g_st", "g_pos"), nloops=1)]),
  Job("NUL lemma", "utf8_dfa.c", "harness_lemma", simd="none", defs=["-DSTEP"], dfcc=False)]

W_ = "all 1- and 2-byte strings, all pairs of 25 boundary bytes at offsets 0..70, random well-formed and damaged texts; exactly allocated, so that a read outside is caught"
NATIVE = [Native("utf8.c", ["src/utf8.c"], what="AVX2 build: " + W_),
          Native("utf8.c", ["src/utf8.c"], march="x86-64-v2", what="SSE build: " + W_, quick_s=5),
          Native("utf8.c", ["native/utf8_portable.c"], march="x86-64", what="portable build: " + W_, quick_s=5),
          Native("intrin.c", ["native/intrin_real.c"], cc="clang", san=False, what="models of the vector instructions against the processor")]
TECHNIQUE = "CBMC function and loop contracts (goto-instrument --dfcc) on utf8_check of src/utf8.c, AVX2, SSE and portable builds, against the Unicode automaton as ghost state, any length"
NOTE = ("All obligations discharged for every string shorter than 2^32 bytes, for the AVX2 (the one the tests build), SSE and portable variants. The AVX-512 variant is not under contract. Trusted: the models of the vector "
        "instructions in inc/x86intrin.h, compared with the processor on random operands on every run.")
EXPLAIN = ("Ghost automaton: the models of the vector loads advance the Unicode automaton over the block loaded and check that blocks are loaded in order, completely, with the tail zero-filled. The loop invariant relates the accumulated error and the "
  "remembered last bytes of the previous block to the automaton's state; the postcondition says the result is true exactly in the accepting state after all bytes. Portable variant: the table step is proved equal to the automaton step for every state and byte.")
TRUSTED = ["x86 intrinsics as bit-vector models in inc/x86intrin.h (compared with the processor by native/intrin.c)", "memcpy/memset of less than one block written out byte by byte"]
ASSUME = ["strings shorter than 2^32 bytes", "AVX-512 variant not covered"]
