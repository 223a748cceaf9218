#!/usr/bin/env python3
"""Writes /verif/DESIGN.md."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
head = open(V + "/tools/design_head.md").read(); tail = open(V + "/tools/design_tail.md").read()
man = json.load(open(V + "/MANIFEST.json")); na = {x["property"]: x["reason"] for x in man["not_applicable"]}
o = [head, "\n## Properties\n"]
for l in open(V + "/properties.jsonl"):
    d = json.loads(l); i = d["id"]
    o.append("\n### %s %s\n" % (i, d["title"]))
    if i in na: o.append("Not claimed: %s.\n" % na[i]); continue
    m = importlib.import_module("props." + i)
    J = list(m.JOBS) + [j for j in getattr(m, "FEW", [])]
    o.append("*Method.* %s. Level: %s.\n" % (m.TECHNIQUE, getattr(m, "LEVEL", "proof")))
    o.append("*Under contract.* " + "; ".join("%s (%s%s%s%s)" % (", ".join(j.functions) or j.name, j.name, ", bounded: " + j.bounded if isinstance(j.bounded, str) else ", with a bounded stand-in" if j.bounded else "", ", thorough" if j.tier == "thorough" else "", ", " + j.backend if j.backend != "sat" else "") for j in J) + ".\n")
    o.append("*What is decided.* %s\n" % m.EXPLAIN); o.append("*Reach.* %s\n" % m.NOTE)
    o.append("*Replay.* " + "; ".join("`native/%s`: %s" % (n.src, n.what) for n in m.NATIVE) + ".\n")
    o.append("*Trusted.* " + "; ".join(m.TRUSTED) + ". *Assumed.* " + "; ".join(m.ASSUME) + ".\n")
tab = []
OB = set(open(V + "/tools/obligation_only.txt").read().split())
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    s = os.path.basename(os.path.dirname(p)); d = json.load(open(p))
    tab.append("| %s: %s | %s, %s | %s |" % (s, d["what_it_breaks"], d["property"], "obligation" if s in OB else "input", d["needs"]))
o.append("\n" + tail.replace("@TABLE@", "\n".join(tab)))
open(V + "/DESIGN.md", "w").write("\n".join(o))
