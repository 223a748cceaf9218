#!/usr/bin/env python3
"""tools/seed.py ID: verify a planted bug in /repo (apply, build, tests, demo, this property's quick check) and undo it."""
import json, os, subprocess, sys, re
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def build(): return sh("bash /opt/vp/build.sh").returncode
def demo(i): return sh(f"bash {V}/seeded/{i}/demo.sh", cwd="/repo", timeout=300).returncode
def one(i, check=True):
    d = f"{V}/seeded/{i}"; meta = json.load(open(d + "/meta.json")); p = meta["property"]
    if sh("git -C /repo status --porcelain").stdout.strip(): sys.exit("/repo is dirty")
    if build(): sys.exit("build")
    r0 = demo(i)
    if sh(f"git -C /repo apply {d}/patch.diff").returncode: return print(i, "patch does not apply")
    try:
        b = sh("bash /opt/vp/test.sh /tmp/seed_o.json").returncode
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); got = set(json.load(open("/tmp/seed_o.json"))["passed"])
        r1 = demo(i)
        c = sh(f"VERIF_TIER=quick VERIF_SEED=1 python3 check.py {p} quick", cwd=V) if check else None
        vl = [l for l in (c.stdout if c else "").splitlines() if l.startswith("VIOLATION")]
        print(i, p, "demo unchanged", r0, "patched", r1, "tests missing", sorted(base - got)[:5], "check", c and c.returncode, vl[:3], flush=True)
    finally:
        sh("git -C /repo checkout -- ."); build()
if __name__ == "__main__":
    for i in sys.argv[1:]:
        if i != "-n": one(i, "-n" not in sys.argv)
