from vp.core import Job, Loop, Native, FAULTS
from props.P14 import WORLD, WDEFS, WLIBS
OB = ["--object-bits", "12"]
QUICK = ((0, 0), (1, 0), (1, 1), (2, 1))
JOBS = [Job("handshake%d%s%s" % (n, "_acc%d" % acc if n else "", v), "response.c", "h_handshake", enforce="handshake_response", defs=["-DHANDSHAKE", "-DNEXT=%d" % n, "-DACC=%d" % acc] + d, functions=["handshake_response"], flags=OB, backend="cadical",
            timeout=420, tier="quick" if (n, acc) in QUICK else "thorough", bounded="at most three extensions" if n else None)
        for n in (0, 1, 2, 3) for acc in (range(1 << n) if n < 3 else (2, 5, 7)) for v, d in (("", []), ("_version", ["-DVERSION"])) if n in (0,) or not d]
NATIVE = [Native("response.c", list(WORLD), defs=WDEFS, libs=WLIBS, what="whole upgrade requests (keys, subprotocols, up to four offered extensions with and without parameters, requests that are refused, refused allocations) are sent to the real server code over a socket that splits reads and writes anywhere; "
                 "the answer is parsed by an independent reader and its accept value compared with an independent SHA-1 and base64")]
TECHNIQUE = "CBMC function contract (goto-instrument --dfcc) on handshake_response: every piece is written exactly behind the previous one; accept value and lists by contracts of what they are made of"
NOTE = ("Without extensions all obligations are discharged for every key up to 4 KiB, every subprotocol name up to 64 KiB and every reason text; with extensions for at most two (quick) or three (thorough) extensions, names and parameters of any length up to 64 KiB: bounded in their number. "
        "That the accept value is the base64 of the SHA-1 rests on OpenSSL and is compared with an independent implementation in the native part only.")
EXPLAIN = ("Every sprintf, memcpy and single byte of the response must begin exactly where the one before ended and stay inside the allocation; the hash is made of exactly the key and the GUID (an arbitrary byte of it is followed); the accept value, the subprotocol name and the extensions are written whole, "
           "once, in order and only on their own lines; the head ends with one empty line, nothing follows it, and the announced length is the number of bytes written.")
TRUSTED = ["sprintf by a stub that walks the format string and adds up the lengths of its arguments (contracts/response.c)", "log10 by its bounds floor(log10 x) <= log10 x < floor(log10 x) + 1", "WSS_base64_encode_sha1 returns 28 characters of its own (OpenSSL; compared natively)"]
ASSUME = ["status codes have three digits", "lengths below 64 KiB (the request is bounded by the configured limits)", "the library build with OpenSSL; the fallback SHA-1 in src/sha1.c is not covered"]
