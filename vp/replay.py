#!/usr/bin/env python3
"""replay.py <property> <index> <input file>: run the real code on a recorded input."""
import importlib, os, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import core
mod = importlib.import_module("props." + sys.argv[1])
n = mod.NATIVE[int(sys.argv[2])]
d = tempfile.mkdtemp(prefix="vp-replay-")
exe = os.path.join(d, "r")
ok, log = core.native_build(os.path.join(core.VERIF, "native", n.src), exe, n.defs, n.libs, n.march,
                            extra_src=[u if u.startswith("/") else os.path.join(core.REPO, u) for u in n.units])
if not ok:
    sys.exit(log)
rc = subprocess.call([exe, "replay", os.path.abspath(sys.argv[3])], cwd=d)
shutil.rmtree(d)
sys.exit(rc)
