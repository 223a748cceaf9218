from vp.core import Job, Loop, Native, FAULTS
from copy import copy
REP = ["WSS_closing_frame", "WSS_free_frame"]
def unrolled(n, tier):
    return Job("WSS_create_frames[<=%d frames, any sizes]" % n, "frame_create.c", "harness_create", enforce="WSS_create_frames", replace=REP, defs=["-DCREATE", "-DUNROLL=%d" % n],
        functions=["WSS_create_frames"], split=True, unwind=n + 2, tier=tier, timeout=400, flags=["--object-bits", "9"] if n > 2 else [], bounded="at most %d frames" % n)
U = unrolled(2, "quick")
C = copy(U); C.name = "WSS_create_frames[frame count]"; C.backend = "cvc5fpa"; C.defs = ["-DCREATE", "-DUNROLL=3", "-DCEILARG"]; C.unwind = 5
I = Job("WSS_create_frames[inductive: sizes and frame counts <= 63]", "frame_create.c", "harness_create", enforce="WSS_create_frames", replace=REP, defs=["-DCREATE","-DNOCONTENT","-DMAXFRAMES=63"], functions=["WSS_create_frames"], split=True,
      tier="thorough", timeout=600, ignore=["dynamic allocation is allowed"], bounded="message and frame sizes and frame counts up to 63",
      loops=[Loop("WSS_create_frames", "1 == 1", "j", None, locals_=("j",), idx=0, nloops=3),
             Loop("WSS_create_frames", "1 == 1", "j", None, locals_=("j",), idx=1, nloops=3),
             Loop("WSS_create_frames", "i <= frames_count && frames_count == (h_n ? h_n : 1) && g_f == i && g_p == i && g_arr && frames == *fs && msg == message && vp_g1 == 0 && "
               "(i < frames_count ==> offset == (unsigned long)h_sf * i) && "
               "(gi < i ==> frames[gi] == &G && G.fin == 0 && G.opcode == (gi == 0 ? h_op : 0) && !G.mask && !G.rsv1 && !G.rsv2 && !G.rsv3 && G.extensionDataLength == 0 && "
               "   G.applicationDataLength == h_exp && G.payloadLength == h_exp && G.payload == PG) && "
               "(i == frames_count && gi != frames_count - 1 ==> frames[frames_count - 1] == &L)",
               "i, j, offset, frame, G, L, g_f, g_p, vp_oom, vp_g1, __CPROVER_object_whole(PG), __CPROVER_object_whole(frames)", "frames_count - i",
               locals_=("i", "j", "offset", "frame", "frames", "frames_count", "msg"), params=("fs", "message"), globals_=("G", "L", "PG", "g_f", "g_p", "gi", "h_n", "h_sf", "h_op", "h_exp", "hk", "vp_g0", "vp_g1", "vp_oom", "g_arr"), idx=2, nloops=3)])
JOBS = [U, C, unrolled(3, "thorough"), I]
NATIVE = [Native('frames.c', ['src/frame.c', 'src/alloc.c', 'src/log.c'], defs=('-DPROP=4',) + FAULTS, what='')]
NATIVE[0].what = "fragments concrete messages (all lengths 0..99 times all frame sizes 1..30, larger ones sampled), compares the frames with the message and injects allocation failures"
LEVEL = "other"
TECHNIQUE = "CBMC function contract on WSS_create_frames (dfcc): any message and frame sizes for up to 2 (thorough 3) frames by unrolling; inductive loop contract for sizes and frame counts up to 63 (thorough)"
NOTE = ("Bounded: message content and sizes are fully symbolic but the number of frames is at most 2 (quick) or 3 (thorough), or sizes at most 63 with a loop invariant over any iteration (thorough): 64-bit symbolic products in "
        "the invariant are out of reach of the solvers. That ceil(double) of the quotient is the exact quotient rounded up is checked to be the argument of ceil and the arithmetic fact itself is assumed.")
EXPLAIN = "Contract of WSS_create_frames for an arbitrary frame index gi and an arbitrary byte hk of it; close messages are delegated to WSS_closing_frame, whose contract is P05's."
TRUSTED = ["memcpy as ghost-address model in contracts/mem.h", "for 0<=len<2^32 and 1<=size<2^32 the double len/size rounded up is the exact ceiling (both are exact in a double and the quotient is at least 1/size away from an integer it is not equal to)"]
ASSUME = ["messages shorter than 2^32 bytes", "frame size between 1 and 2^32-1"]
