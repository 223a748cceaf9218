#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props/*.py and the not-applicable reasons below."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
 "P12": "not built: the rules live in WSS_read, one function of 450 lines with nine loops over frames it owns, rearranges and replaces; it needs a list invariant with per-frame ownership that the contract language available (no separation, no recursive predicates over arrays of pointers) can only express frame by frame, and the time did not suffice. The pieces it relies on (decoding, close frames, UTF-8, sending) are P01, P05, P06, P26",
 "P13": "not built: same function as P12 (WSS_read); assembling and fragmenting are covered where they are separate functions (P01, P04, P26)",
 "P20": "not built: src/config.c walks the tree of an external JSON parser (src/json.c); a contract proof would rest on an assumed contract for the parser that is most of the property",
 "P22": "rests on zlib: that inflate undoes deflate would have to be assumed, which is the property itself; what remains (buffer growth, locks, limits in permessage-deflate.c) was read but not put under contract",
 "P23": "not built: src/subprotocols.c and src/extensions.c are thin shells around dlopen/dlsym and uthash, both of which would be assumed; the check would decide little beyond them",
 "P25": "the set of accepted targets is decided by regcomp/regexec of the C library on a string built at run time; no contract within reach says which strings a regular expression accepts (WSS_upgrade_header's use of the result is P09)",
 "P27": "interleavings under the C11 memory model: the contract verifier available (CBMC dfcc) is sequential and has no ownership or rely-guarantee logic for lock-free code; P15 proves the sequential contracts only",
 "P28": "liveness over real time and thread scheduling; function contracts over states express safety, and the code has no ranking argument a deductive verifier could check (timers, epoll)",
 "P29": "rests on OpenSSL, whose behaviour would have to be assumed wholesale; a contract proof over assumed SSL_* contracts would show nothing about the property",
}
DEFAULT = "contracts not built yet"
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "props", i + ".py")) and i not in NA:
        m = importlib.import_module("props." + i)
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": m.TECHNIQUE, "level": getattr(m, "LEVEL", "proof"), "level_note": m.NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, DEFAULT)})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q vp props", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the contracts are attached to /repo's unmodified source text (the harness translation units #include it; loop contracts come from a side file)."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
