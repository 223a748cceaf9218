from vp.core import Job, Loop, Native, FAULTS
V = [("rpmalloc", []), ("libc", ["-UUSE_RPMALLOC"])]
JOBS = []
for v, d in V:
    for n, f in (("malloc", "WSS_malloc"), ("calloc", "WSS_calloc"), ("copy", "WSS_copy"), ("realloc", "WSS_realloc"), ("realloc_normal", "WSS_realloc_normal"), ("free", "WSS_free"), ("free_normal", "WSS_free_normal")):
        JOBS.append(Job("%s[%s]" % (f, v), "alloc.c", "h_" + n, enforce=f, defs=d, functions=[f], backend="cvc5" if n == "calloc" else "sat"))
        if n.startswith("realloc") or n == "free_normal":
            JOBS.append(Job("%s[%s, NDEBUG]" % (f, v), "alloc.c", "h_" + n, enforce=f, defs=d + ["-DNDEBUG"], functions=[f]))
RP = ("-DVP_FAULTS", "-DRP", "-DUSE_RPMALLOC", "-Drpmalloc=vp_malloc", "-Drpcalloc=vp_rpcalloc", "-Drprealloc=vp_realloc", "-Drpfree=vp_free")
N_ = "calls every function of the layer on concrete sizes (0 to 256 KiB, overflowing products) over an allocator that refuses on demand, hands out garbage and counts live blocks"
NATIVE = [Native("alloc.c", ["src/alloc.c"], defs=FAULTS, what="libc build: " + N_, quick_s=5),
          Native("alloc.c", ["src/alloc.c"], defs=RP, what="rpmalloc build: " + N_, quick_s=5),
          Native("alloc.c", ["src/alloc.c"], defs=RP + ("-UNDEBUG",), what="rpmalloc debug build: " + N_, quick_s=5)]
TECHNIQUE = "CBMC function contracts (goto-instrument --dfcc) on every function of src/alloc.c, for the rpmalloc and libc builds with and without NDEBUG, any size"
NOTE = ("All obligations discharged for every size, old size and refusal; contents tracked through one arbitrary byte index. The allocator underneath (rpmalloc.c, libc) is assumed to keep its documented contract; "
        "rpcalloc is assumed not to check for overflow, as in its default build.")
EXPLAIN = "Each function's postcondition states when it returns NULL, that the block is accessible, what an arbitrary byte of it holds, and which old block was released."
TRUSTED = ["malloc/realloc/calloc/free and rpmalloc's equivalents keep the contract of the C standard (src/rpmalloc.c is not verified)", "memset/memcpy as ghost-address models in contracts/alloc.c"]
ASSUME = ["successful requests are below 2^40 bytes"]
