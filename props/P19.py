from vp.core import Job, Loop, Native, FAULTS
D = "({c} == ({v} < 10 ? 48 + {v} : 55 + {v}) || {c} == ({v} < 10 ? 48 + {v} : 87 + {v}))"
def d(c, v): return D.replace("{c}", c).replace("{v}", v)
JOBS = [
  Job("bin2hex", "str.c", "h_bin2hex", enforce="bin2hex", functions=["bin2hex"],
      loops=[Loop("bin2hex", "i <= len && (hk < i ==> %s && %s)" % (d("out[2 * hk]", "(h_b >> 4)"), d("out[2 * hk + 1]", "(h_b & 15)")), "i, __CPROVER_object_whole(out)", "len - i", locals_=("i", "out"), params=("len",), globals_=("hk", "h_b"), nloops=1)]),
  Job("strinarray", "str.c", "h_strinarray", enforce="strinarray", functions=["strinarray"],
      loops=[Loop("strinarray", "i >= 0 && (unsigned long)i <= size && (hk < (unsigned long)i ==> h_hay[hk] != h_eq) && !g_hit", "i, g_hit", "size - (unsigned long)i", locals_=("i",), params=("size",), globals_=("hk", "h_hay", "h_eq", "g_hit"), nloops=1)]),
  Job("strload", "str.c", "h_strload", enforce="strload", functions=["strload"], defs=["-DSTRLOAD"]),
]
NATIVE = [Native("str.c", ["src/str.c", "src/alloc.c", "src/log.c"], defs=FAULTS + ("-Dfopen=vp_fopen", "-Dfread=vp_fread", "-Dfclose=vp_fclose", "-Dfseek=vp_fseek", "-Dftell=vp_ftell"),
   what="concrete strings, lists and files (missing, empty, directories, failing reads and closes) in a scratch directory, with refused allocations, leak and open-file counting")]
TECHNIQUE = "CBMC function and loop contracts (goto-instrument --dfcc) on bin2hex, strinarray and strload of src/str.c, any lengths"
NOTE = ("All obligations discharged for every input, list length and sequence of file operation results. Strings are represented by their lengths and the first index at which they differ, files by length and one arbitrary byte; assumes strlen, "
        "strncmp and the stdio functions keep their documented meaning.")
EXPLAIN = "bin2hex: both digits of an arbitrary byte. strinarray: an arbitrary entry equal to the needle is found, and what is found is equal. strload: exact length and an arbitrary byte, every failing operation is reported with the file closed and nothing leaked."
TRUSTED = ["strlen, strncmp, fopen, fseek, ftell, fread, fclose as models in contracts/str.c", "allocator contract (P18)"]
ASSUME = ["fewer than 2^31 list entries, files below 2^40 bytes"]
