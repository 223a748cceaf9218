"""Driver: contract checks (goto-cc / goto-instrument --dfcc / cbmc) on /repo's current sources,
plus native replay of failing inputs on the real code."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CPUS = 8
BASE_DEFS = ["-D_DEFAULT_SOURCE", "-std=c11", "-DUSE_RPMALLOC", "-DUSE_OPENSSL",
             '-DWSS_SERVER_VERSION="v2.0.0"', "-DFIPS_mode_set(x)=(0)"]
INCS = ["-I" + os.path.join(VERIF, "inc"), "-I" + REPO, "-I" + REPO + "/include", "-I" + REPO + "/src",
        "-I" + REPO + "/extensions", "-I" + REPO + "/subprotocols", "-I" + VERIF + "/contracts"]
SIMD = {"avx2": ["-U__AVX512F__", "-D__AVX2__=1", "-D__AVX__=1"],
        "sse2": ["-U__AVX512F__", "-U__AVX2__", "-U__AVX__", "-D__SSE2__=1", "-D__SSE4_1__=1"],
        "none": ["-U__AVX512F__", "-U__AVX2__", "-U__AVX__", "-U__SSE2__", "-U__SSE4_1__"]}


def sh(cmd, timeout, cwd=None, mem_gb=6):
    """Run; returns (rc, out, err, secs). rc None on timeout."""
    t = time.time()
    pre = "ulimit -v %d; exec \"$@\"" % (mem_gb * 1024 * 1024)
    p = subprocess.Popen(["bash", "-c", pre, "x"] + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace"), time.time() - t
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o.decode("utf8", "replace"), e.decode("utf8", "replace"), time.time() - t


class Loop:
    """Contract of the n-th loop of a function. vars: names used in the clauses -> 'local' (looked up among the
    function's locals) or 'param' or 'global'. alts: other acceptable names."""
    def __init__(self, fn, inv, assigns, dec=None, locals_=(), params=(), globals_=(), idx=0, nloops=None):
        self.fn, self.inv, self.assigns, self.dec = fn, inv, assigns, dec
        self.locals_, self.params, self.globals_, self.idx, self.nloops = locals_, params, globals_, idx, nloops


class Job:
    def __init__(self, name, src, harness, enforce=None, replace=(), loops=(), defs=(), simd="avx2", flags=(),
                 unwind=None, unwindset=(), backend="sat", timeout=150, bounded=None, functions=(), reach=True,
                 tier="quick", remove=(), mem_gb=8, dfcc=True, trusted=(), ignore=(), split=False, preunwind=(), rmfp=False):
        self.__dict__.update(locals())
        del self.__dict__["self"]


class Res:
    def __init__(self, job, status, **kw):
        self.job, self.status = job, status
        self.obligations = self.discharged = 0
        self.failed = []
        self.detail = ""
        self.secs = 0.0
        self.inputs = {}
        self.out = ""
        self.__dict__.update(kw)


def resolve_loops(gb, job, wd):
    """Build the loop-contract file for this program; None if the loops/locals the contracts talk about are absent."""
    rc, out, err, _ = sh(["goto-instrument", "--show-loops", gb], 60)
    present = {}
    for m in re.finditer(r"^Loop ([\w$.]+)\.(\d+):", out, re.M):
        present.setdefault(m.group(1), []).append(int(m.group(2)))
    rc, syms, err, _ = sh(["goto-instrument", "--list-symbols", gb], 60)
    names = set(l.split()[0] for l in syms.splitlines() if l.strip())
    fns = {}
    for L in job.loops:
        if L.fn not in present or L.idx not in present[L.fn]:
            return None, "no loop %s.%d in the current source" % (L.fn, L.idx)
        if L.nloops is not None and len(present[L.fn]) != L.nloops:
            return None, "%s has %d loops, contracts written for %d" % (L.fn, len(present[L.fn]), L.nloops)
        mp = []
        for v in L.locals_:
            cand = [n for n in names if re.fullmatch(re.escape(L.fn) + r"(::[\d]+)+::" + re.escape(v), n)]
            if len(cand) != 1:
                return None, "local %s of %s not found (or ambiguous): %s" % (v, L.fn, cand)
            mp.append("%s,%s" % (v, cand[0]))
        for v in L.params:
            if "%s::%s" % (L.fn, v) not in names:
                return None, "parameter %s of %s not found" % (v, L.fn)
            mp.append("%s,%s::%s" % (v, L.fn, v))
        for v in L.globals_:
            mp.append("%s,%s" % (v, v))
        d = {"loop_id": str(L.idx), "assigns": L.assigns, "invariants": L.inv, "symbol_map": ";".join(mp)}
        if L.dec:
            d["decreases"] = L.dec
        fns.setdefault(L.fn, []).append(d)
    p = os.path.join(wd, "loops.json")
    json.dump({"functions": [{f: l} for f, l in fns.items()]}, open(p, "w"))
    return p, ""


REACH = "VP_REACH"
import threading
SEM = threading.Semaphore(CPUS)


def parse_cbmc(out):
    try:
        data = json.loads(out)
    except Exception:
        return None
    res, status, msgs = None, None, []
    for d in data:
        if "result" in d:
            res = d["result"]
        if "cProverStatus" in d:
            status = d["cProverStatus"]
        if d.get("messageType") == "ERROR":
            msgs.append(d.get("messageText", ""))
    return res, status, msgs


def trace_inputs(res):
    """Last values given to harness input variables named in_* in the trace of a failing obligation."""
    vals = {}
    for st in res.get("trace", []):
        if st.get("stepType") != "assignment":
            continue
        lhs = st.get("lhs", "")
        m = re.match(r"^(in_\w+)(?:\[(\d+)[lLuU]*\])?$", lhs)
        if not m:
            continue
        v = st.get("value", {})
        if m.group(2) is not None:
            b = v.get("binary")
            if b is not None:
                a = vals.setdefault(m.group(1), {})
                if isinstance(a, dict):
                    a[int(m.group(2))] = int(b, 2)
        elif "elements" in v:
            a = {}
            for e in v["elements"]:
                b = e["value"].get("binary")
                if b is not None:
                    a[int(e["index"])] = int(b, 2)
            vals[m.group(1)] = a
        elif v.get("binary") is not None:
            vals[m.group(1)] = int(v["binary"], 2)
    return vals


def run_job(job, base):
    t0 = time.time()
    wd = os.path.join(base, re.sub(r"\W", "_", job.name))
    os.makedirs(wd, exist_ok=True)
    a, b = os.path.join(wd, "a.gb"), os.path.join(wd, "b.gb")
    src = os.path.join(VERIF, "contracts", job.src)
    cc = ["goto-cc"] + BASE_DEFS + SIMD[job.simd] + list(job.defs) + INCS + [src, "--function", job.harness, "-o", a]
    rc, out, err, _ = sh(cc, 120)
    if rc != 0:
        return Res(job, "attach", detail="goto-cc: " + (out + err)[-1500:], secs=time.time() - t0)
    cur = a
    cmds = [" ".join(cc)]
    if job.remove:
        r = os.path.join(wd, "r.gb")
        c = ["goto-instrument"] + sum([["--remove-function-body", f] for f in job.remove], []) + [cur, r]
        rc, out, err, _ = sh(c, 120)
        if rc != 0:
            return Res(job, "attach", detail="remove-body: " + (out + err)[-1500:], secs=time.time() - t0)
        cur = r
    if job.rmfp:
        r = os.path.join(wd, "rf.gb")
        c = ["goto-instrument", "--remove-function-pointers", cur, r]
        rc, out, err, _ = sh(c, 120)
        cmds.append(" ".join(c))
        if rc != 0:
            return Res(job, "attach", detail="remove-function-pointers: " + (out + err)[-1500:], secs=time.time() - t0)
        cur = r
    if job.preunwind:
        u = os.path.join(wd, "u.gb")
        c = ["goto-instrument"] + sum([["--unwindset", x] for x in job.preunwind], []) + ["--unwinding-assertions", cur, u]
        rc, out, err, _ = sh(c, 120)
        cmds.append(" ".join(c))
        if rc != 0:
            return Res(job, "attach", detail="unwind: " + (out + err)[-1500:], secs=time.time() - t0)
        cur = u
    if job.dfcc:
        gi = ["goto-instrument", "--dfcc", job.harness]
        if job.enforce:
            gi += ["--enforce-contract", job.enforce]
        for f in job.replace:
            gi += ["--replace-call-with-contract", f]
    else:
        gi = ["goto-instrument"] + sum([["--replace-call-with-contract", f] for f in job.replace], [])
    if job.loops:
        lf, why = resolve_loops(cur, job, wd)
        if lf is None:
            return Res(job, "attach", detail=why, secs=time.time() - t0)
        gi += ["--apply-loop-contracts", "--loop-contracts-file", lf]
    if job.dfcc or job.loops or job.replace:
        gi += [cur, b]
        rc, out, err, _ = sh(gi, 200)
        cmds.append(" ".join(gi))
        if rc != 0:
            return Res(job, "attach", detail="goto-instrument: " + (out + err)[-1500:], secs=time.time() - t0)
        cur = b
    base_flags = list(job.flags)
    if job.unwind:
        base_flags += ["--unwind", str(job.unwind)]
    for u in job.unwindset:
        base_flags += ["--unwindset", u]
    solver = {"sat": [], "cadical": ["--sat-solver", "cadical"], "cvc5": ["--cvc5"], "cvc5fpa": ["--cvc5", "--fpa"], "z3": ["--z3"]}[job.backend]
    cb = ["cbmc", cur, "--unwinding-assertions"] + base_flags + solver
    cmds.append(" ".join(cb))
    rc, out, err, _ = sh(["cbmc", cur, "--show-properties", "--json-ui", "--unwinding-assertions"] + base_flags, 60)
    props = []
    try:
        for x in json.loads(out):
            for q in x.get("properties", []):
                props.append((q["name"], q.get("description", "")))
    except Exception:
        return Res(job, "error", detail="cannot list properties: " + (out + err)[-500:], secs=time.time() - t0)
    groups = {}
    if job.split:
        for n, desc in props:
            k = n.rsplit(".", 1)[0]
            if REACH in desc:
                g = "reach"
            elif re.search(r"postcondition|loop_invariant|\bassertion$", k) and not k.startswith("__CPROVER"):
                g = n
            elif "pointer_dereference" in k and job.split == "fine":
                g = n
            elif "pointer_dereference" in k or "pointer_arithmetic" in k:
                g = k
            elif k.endswith("precondition"):
                g = k
            else:
                g = "rest"
            groups.setdefault(g, []).append(n)
        if type(job.split) is int:  # at most that many solver runs
            merged = {}
            for i, (g, ns) in enumerate(sorted(groups.items(), key=lambda x: (x[0] != "rest", "pointer" not in x[0]))):
                merged.setdefault("g%d" % (i % job.split), []).extend(ns)
            groups = merged
    else:
        groups = {"all": None}

    def one(g):
        c = list(cb)
        if groups[g] is not None:
            for n in groups[g]:
                c += ["--property", n]
        with SEM:
            rc, out, err, secs = sh(c + ["--json-ui", "--trace"], job.timeout, mem_gb=job.mem_gb)
        return g, rc, out, err, secs

    with ThreadPoolExecutor(max(1, len(groups))) as ex:
        outs = list(ex.map(one, groups))
    results, bad, solver_s = [], [], 0.0
    for g, rc, out, err, secs in outs:
        solver_s += secs
        if rc is None:
            bad.append((g, "no answer within %ds" % job.timeout))
            continue
        pr = parse_cbmc(out)
        if pr is None or pr[0] is None:
            bad.append((g, "cbmc rc=%s %s %s" % (rc, (pr[2] if pr else ""), (out[-500:] + err[-500:]))))
            continue
        want = set(groups[g]) if groups[g] is not None else None
        results += [r for r in pr[0] if want is None or r["property"] in want or "unwind" in r["property"] or "recursion" in r["property"]]
    seen, uniq = set(), []
    for r in sorted(results, key=lambda r: r["status"] != "FAILURE"):
        if r["property"] not in seen:
            seen.add(r["property"])
            uniq.append(r)
    failed, ok, reached, unk, names = [], 0, None, 0, []
    for r in uniq:
        desc = r.get("description", "")
        if REACH in desc:
            reached = reached or r["status"] == "FAILURE"
            continue
        if any(re.search(g, r["property"] + " " + desc) for g in job.ignore):
            continue
        names.append(r["property"])
        if r["status"] == "SUCCESS":
            ok += 1
        elif r["status"] == "FAILURE":
            failed.append(r)
        else:
            unk += 1
    res = Res(job, "ok", obligations=len(names), discharged=ok, secs=time.time() - t0, solver=solver_s, cmds=cmds,
              slow=sorted(((round(o[4], 1), o[0]) for o in outs), reverse=True)[:6])
    if failed:
        res.status = "fail"
        unw = [r for r in failed if "unwind" in r["property"] or "recursion" in r["property"]]
        und = [r for r in failed if "undefined function should be unreachable" in r.get("description", "")]
        if len(unw) + len(und) == len(failed) or und:
            res.status = "attach"
            res.detail = ("a loop without a contract is not bounded by the given unwinding: " + unw[0]["property"]) if unw else \
                "calls a function the contracts do not know: " + und[0]["property"]
        res.failed = [(r["property"], r.get("description", ""),
                       "%s:%s" % (r.get("sourceLocation", {}).get("file", "?"), r.get("sourceLocation", {}).get("line", "?")))
                      for r in failed]
        for r in failed:
            v = trace_inputs(r)
            if v:
                res.inputs = v
                break
    elif bad:
        res.status = "timeout" if all("no answer" in w for _, w in bad) else "error"
        res.detail = "; ".join("%s: %s" % x for x in bad)[:2000]
    elif unk:
        res.status, res.detail = "timeout", "%d obligations undecided" % unk
    elif len(names) == 0:
        res.status, res.detail = "vacuous", "no obligation generated"
    elif job.reach and not reached:
        res.status, res.detail = "vacuous", "the end of the harness is unreachable: contracts exclude every execution"
    return res


def native_build(src, out, defs=(), libs=(), simd_march="x86-64-v3", san=True, extra_src=(), cc="gcc-13"):
    if shutil.which(cc) is None:
        cc = "gcc"
    cmd = [cc, "-O1", "-g", "-std=c11", "-march=" + simd_march, "-U_FORTIFY_SOURCE", "-D_DEFAULT_SOURCE", "-DUSE_OPENSSL", "-DNDEBUG",
           '-DWSS_SERVER_VERSION="v2.0.0"', "-DFIPS_mode_set(x)=(0)", "-w", "-fno-strict-aliasing",
           "-DVP_NATIVE", '-DVP_REPO="%s"' % REPO]
    if san:
        cmd += ["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute,alignment", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
    cmd += list(defs) + ["-I" + VERIF + "/native"] + [i for i in INCS if "/verif/inc" not in i and i != "-I" + os.path.join(VERIF, "inc")]
    cmd += [src] + list(extra_src) + ["-o", out] + list(libs) + ["-lm", "-lpthread"]
    rc, o, e, secs = sh(cmd, 180)
    return rc == 0, (o + e)[-3000:]


FAULTS = ("-DVP_FAULTS", "-Dmalloc=vp_malloc", "-Dcalloc=vp_calloc", "-Drealloc=vp_realloc", "-Dfree=vp_free")


class Native:
    def __init__(self, src, units, defs=(), libs=(), march="x86-64-v3", quick_s=8, thorough_s=60, ce=None, what="", stubs=(), cc="gcc-13", san=True):
        self.__dict__.update(locals())
        del self.__dict__["self"]


def native_run(nat, name, base, seed, secs, blobs=()):
    """-> dict(status ok|fail|nobuild, cases, replay(bytes), why)"""
    exe = os.path.join(base, name)
    units = [u if u.startswith("/") else os.path.join(VERIF, u) if u.startswith("native/") else os.path.join(REPO, u) for u in nat.units]
    ok, log = native_build(os.path.join(VERIF, "native", nat.src), exe, nat.defs, nat.libs, nat.march, extra_src=units, cc=nat.cc, san=nat.san)
    if not ok:
        return dict(status="nobuild", cases=0, why=log)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:abort_on_error=0:handle_segv=1",
               UBSAN_OPTIONS="halt_on_error=1:exitcode=99:print_stacktrace=0")
    scratch = os.path.join(base, name + ".d")
    os.makedirs(scratch, exist_ok=True)
    f = os.path.join(base, name + ".case")

    def call(args, to):
        try:
            p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=to, env=env, cwd=scratch)
            return p.returncode, p.stdout.decode("utf8", "replace")
        except subprocess.TimeoutExpired as e:
            return 97, "HANG " + (e.stdout or b"").decode("utf8", "replace")

    def why(rc, out):
        m = re.search(r"^FAIL (.*)$", out, re.M)
        if m:
            return m.group(1)
        m = re.search(r"(ERROR: AddressSanitizer: .*|runtime error: .*)", out)
        if m:
            return "memory error: " + m.group(1)[:200]
        return "does not terminate" if rc == 97 else "crash (exit %s) %s" % (rc, out[-200:])

    for b in blobs:
        rf = f + ".ce"
        open(rf, "wb").write(b)
        rc, out = call(["replay", rf], 60)
        if rc not in (0, 98):
            return dict(status="fail", cases=1, replay=b, why=why(rc, out), exe=exe, log=out[-3000:], origin="verifier counterexample")
    rc, out = call(["search", str(seed), str(secs), f], secs + 90)
    m = re.search(r"^CASES (\d+)", out, re.M)
    cases = int(m.group(1)) if m else 0
    if rc == 0:
        return dict(status="ok", cases=cases)
    if rc == 98:
        return dict(status="nobuild", cases=0, why=out[-500:])
    try:
        raw = open(f, "rb").read()
        n = int.from_bytes(raw[:8], "little")
        b = raw[8:8 + n]
    except OSError:
        b = b""
    rf = f + ".rp"
    open(rf, "wb").write(b)
    rc2, out2 = call(["replay", rf], 60)
    if rc2 in (0, 98):
        # depends on what ran before: keep the search itself as the replay
        return dict(status="fail", cases=cases, replay=b, why=why(rc, out) + " (after the cases before it: search seed %s)" % seed, exe=exe, log=out[-3000:], origin="directed search")
    return dict(status="fail", cases=cases, replay=b, why=why(rc2, out2), exe=exe, log=out2[-3000:], origin="directed search")


def check(pid, mod, tier=None):
    """Run the check of one property. Returns the exit code."""
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    base = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    try:
        return _check(pid, mod, tier, seed, base, ev, t0)
    finally:
        if base.startswith(tempfile.gettempdir() + "/vp-"):
            shutil.rmtree(base, ignore_errors=True)


def known_findings(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"^known: property=(\w+) key=(\S+) (.*)$", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def _check(pid, mod, tier, seed, base, ev, t0):
    jobs = [j for j in mod.JOBS if tier == "thorough" or j.tier == "quick"]
    thorough = tier == "thorough"
    nats = list(getattr(mod, "NATIVE", []))
    with ThreadPoolExecutor(len(jobs) + len(nats) + 1) as ex:
        fj = [ex.submit(run_job, j, base) for j in jobs]
        fn = [ex.submit(native_run, n, "n%d" % i, base, seed, n.thorough_s if thorough else n.quick_s) for i, n in enumerate(nats)]
        rj = [f.result() for f in fj]
        rn = [f.result() for f in fn]
    # bounded stand-ins for what could not be attached / decided, and counterexample replay
    notes, violations = [], []
    bounded_res = []
    for r in rj:
        if r.status != "ok":
            notes.append("%s: %s %s" % (r.job.name, r.status, r.detail[:400]))
            for b in (r.job.bounded if isinstance(r.job.bounded, (list, tuple)) else []):
                br = run_job(b, base)
                bounded_res.append(br)
                notes.append("bounded stand-in %s: %s %s" % (br.job.name, br.status, br.detail[:200]))
    blobs = {}
    for r in rj + bounded_res:
        if r.status == "fail" and r.inputs:
            for i, n in enumerate(nats):
                if n.ce:
                    try:
                        b = n.ce(r.job, r.inputs)
                        if b is not None:
                            blobs.setdefault(i, []).append(b)
                    except Exception as e:
                        notes.append("counterexample of %s not convertible: %r" % (r.job.name, e))
    anyfail = [r for r in rj + bounded_res if r.status == "fail"]
    undecided = [r for r in rj if r.status not in ("ok", "fail")]
    for i, n in enumerate(nats):
        if rn[i]["status"] != "fail" and (blobs.get(i) or anyfail or undecided):
            # search harder for a failing input
            more = native_run(n, "m%d" % i, base, seed + 1, max(30, n.quick_s * 4), blobs.get(i, []))
            more["cases"] += rn[i].get("cases", 0)
            rn[i] = more
    replay_dir = os.path.join(ev, "replay")
    known = known_findings(pid)
    found_input = False
    for i, (n, r) in enumerate(zip(nats, rn)):
        if r["status"] == "fail":
            key = hashlib.sha256(r["replay"]).hexdigest()[:12]
            p = os.path.join(replay_dir, "%s-%d.input" % (pid, i))
            open(p, "wb").write(r["replay"])
            with open(p + ".txt", "w") as f:
                f.write("property %s\nwhat: %s\norigin: %s\nreplay: python3 /verif/vp/replay.py %s %d %s\nfailed obligations:\n" % (pid, r["why"], r.get("origin"), pid, i, p))
                for a in anyfail:
                    for x in a.failed:
                        f.write("  %s  %s  %s  (%s)\n" % (a.job.name, x[0], x[1], x[2]))
                f.write("\n" + r.get("log", ""))
            found_input = True
            violations.append(("VIOLATION property=%s replay=%s" % (pid, p), r["why"]))
        elif r["status"] == "nobuild":
            notes.append("native replay %s not built: %s" % (n.src, r["why"][-600:]))
    if anyfail and not found_input:
        # proof obligation refuted, no concrete input found
        p = os.path.join(replay_dir, "%s-obligations.txt" % pid)
        with open(p, "w") as f:
            for a in anyfail:
                for x in a.failed:
                    f.write("FAILED OBLIGATION %s: %s: %s (%s)\n" % (a.job.name, x[0], x[1], x[2]))
                f.write("verifier inputs: %s\n" % json.dumps(a.inputs)[:4000])
                try:
                    o = os.path.join(base, re.sub(r"\W", "_", a.job.name), "cbmc.json")
                    f.write(open(o).read()[-20000:])
                except OSError:
                    pass
        a = anyfail[0]
        violations.append(("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p),
                           "obligation %s of %s: %s" % (a.failed[0][0], a.job.name, a.failed[0][1])))
    proved = [r for r in rj if r.status == "ok"]
    level = getattr(mod, "LEVEL", "proof")
    all_proved = len(proved) == len(rj) and len(rj) > 0
    full = [r for r in rj if not isinstance(r.job.bounded, str)]
    part = [r for r in rj if isinstance(r.job.bounded, str)]
    cov = {
        "explanation": getattr(mod, "EXPLAIN", ""),
        "obligations": sum(r.obligations for r in full),
        "discharged": sum(r.discharged for r in full if r.status == "ok"),
        "checker_cmd": "; ".join(sorted(set(re.sub(r"/tmp/\S*/", "", c) for r in rj[:1] for c in getattr(r, "cmds", [])))) or "cbmc",
        "trusted_base": list(getattr(mod, "TRUSTED", [])) + COMMON_TRUSTED,
        "functions_under_contract": [{"job": r.job.name, "functions": list(r.job.functions), "kind": "proof" if r in full else "bounded: " + r.job.bounded,
                                      "status": r.status, "obligations": r.obligations,
                                      "discharged": r.discharged, "back_end": "cbmc " + r.job.backend, "solver_s": round(getattr(r, "solver", 0.0), 2)} for r in rj],
        "bounded_stand_ins_run": [{"job": r.job.name, "status": r.status, "obligations": r.obligations, "discharged": r.discharged, "bound": r.job.bounded if isinstance(r.job.bounded, str) else ""} for r in part + bounded_res],
        "replay_harness": [{"program": n.src, "cases": r.get("cases", 0), "status": r["status"], "what": n.what} for n, r in zip(nats, rn)],
        "solver_s": round(sum(getattr(r, "solver", 0.0) for r in rj), 2),
        "notes": notes,
    }
    if not all_proved:
        cov["explanation"] += " THIS RUN: not every obligation was discharged deductively; see notes. Decided by the bounded stand-ins and the replay harness only."
        if level == "proof":
            level = "other"
    doc = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
           "assumptions": list(getattr(mod, "ASSUME", [])) + notes, "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    tmp = os.path.join(ev, "%s.json.tmp" % pid)
    json.dump(doc, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(ev, "%s.json" % pid))
    for r in rj + bounded_res:
        print("%-40s %-8s %d/%d obligations  %.1fs %s" % (r.job.name, r.status, r.discharged, r.obligations, r.secs, r.detail[:160].replace("\n", " ")))
        for x in r.failed[:6]:
            print("    failed: %s: %s (%s)" % x)
    for n, r in zip(nats, rn):
        print("%-40s %-8s %d cases  %s" % ("replay " + n.src, r["status"], r.get("cases", 0), r.get("why", "")[:160].replace("\n", " ")))
    for k, what in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for v, why in violations:
        print(v)
        print("  " + why, file=sys.stderr)
    return 1 if violations else 0


COMMON_TRUSTED = [
    "CBMC 6.11 (goto-cc, goto-instrument --dfcc, cbmc) and its SAT/SMT back ends; its C semantics for x86-64 LP64",
    "logging calls have no effect on the property (log_log is an empty stub; its arguments are still evaluated)",
    "goto-cc compiles the same source text as the build; gcc's code generation is not verified",
]
