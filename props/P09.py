from vp.core import Job, Loop, Native, FAULTS
OB = ["--object-bits", "12"]
JOBS = [Job("upgrade", "header.c", "h_upgrade", enforce="WSS_upgrade_header", replace=["has_token"], defs=["-DUPGRADE"], functions=["WSS_upgrade_header"], flags=OB),
        Job("token_upgrade", "header.c", "h_token", dfcc=False, defs=["-DTOKEN=\"up\"", "-DLEN=7"], functions=["has_token"], backend="cadical", timeout=300, bounded="a token of two letters, lists up to 7 characters", flags=OB + ["--unwind", "11"]),
        Job("token_websocket", "header.c", "h_token", dfcc=False, defs=["-DTOKEN=\"web\"", "-DLEN=8"], functions=["has_token"], backend="cadical", timeout=400, bounded="a token of three letters, lists up to 8 characters", flags=OB + ["--unwind", "12"])]
HDR = ["src/header.c", "src/str.c", "src/b64.c", "src/alloc.c"]
WHAT = ("requests built from parts whose meaning is known (methods, targets, versions, every header line in any order, case and spacing, allow lists, keys, offers of subprotocols and extensions; limits at their exact boundary), and the same requests cut, doubled and overwritten anywhere, "
        "with refused allocations, run through the real parser and policy; status, fields and enabled extensions against what the parts say")
NATIVE = [Native("header.c", HDR, defs=FAULTS, what=WHAT)]
TECHNIQUE = "CBMC function contract (goto-instrument --dfcc) on WSS_upgrade_header over arbitrary truths about the request; bounded CBMC check of the list search has_token"
NOTE = ("All obligations of WSS_upgrade_header are discharged for every combination of present and missing headers, allow lists, regular-expression result, version and decoded key. has_token is checked exhaustively for short tokens and lists only (bounded), "
        "and natively for the real ones. That a refused session is never marked as a websocket session is decided by the native part of P08/P11.")
EXPLAIN = ("The result is 101 if and only if the path matches, host and origin are in their lists (when configured), the target is not an http(s) URL, Upgrade names websocket, Connection names Upgrade, the version is 7, 8 or 13 and the key decodes to 16 bytes; every other status implies that its own condition is violated; "
           "the decoded key is released on every path.")
TRUSTED = ["strinarray (P19), b64_decode_ex (P07) by what their contracts say", "regexec by its result", "the request is the one WSS_parse_header filled in (P10)"]
ASSUME = ["list lengths of the configuration are not negative"]
