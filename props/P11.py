from vp.core import Job, Loop, Native, FAULTS
OB = ["--object-bits", "12"]
JOBS = [Job(f + v, "response.c", "h_" + f, enforce=f + "_response", defs=["-DHTTP"] + d, functions=[f + "_response"], flags=OB) for f in ("http", "upgrade", "favicon") for v, d in (("", []), ("_version", ["-DVERSION"]), ("_noetag", ["-DNOETAG"]))
        if f == "favicon" or v != "_noetag"]
from props.P14 import WORLD, WDEFS, WLIBS
NATIVE = [Native("response.c", list(WORLD), defs=WDEFS, libs=WLIBS, what="requests that are refused for every reason the server knows, requests for the favicon (files of 0 to 8 KiB, missing, not configured) and refused allocations run through the real server code over a socket that splits reads and writes anywhere; the answer is parsed by an independent reader")]
TECHNIQUE = "CBMC function contracts (goto-instrument --dfcc) on http_response, upgrade_response and favicon_response: every piece is written exactly behind the previous one, and the format strings are followed to where lines, head and body end"
NOTE = "All obligations discharged for every status code of three digits, every reason and exception text (up to 1 MiB), every favicon below 16 MiB, every refused allocation."
EXPLAIN = ("Every sprintf and memcpy of a response must begin exactly where the one before ended and stay inside the allocation; the response begins with the status line for the given code, every further line of the head is a header line, exactly one content length is announced and it equals the number of bytes "
           "behind the empty line, the announced message length equals the number of bytes written; 501 names the supported versions; every temporary is released on every path.")
TRUSTED = ["sprintf/snprintf by a stub that walks the format string and adds up the lengths of its arguments (contracts/response.c)", "log10 by its bounds floor(log10 x) <= log10 x < floor(log10 x) + 1", "time, locale, stat and strftime as arbitrary texts of bounded length", "strload and bin2hex by the contracts proved in P19"]
ASSUME = ["status codes have three digits", "the text passed to upgrade_response is not empty (its only caller passes a constant)", "file sizes below 16 MiB"]
