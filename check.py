#!/usr/bin/env python3
"""Decide one property: compile its harnesses together with /repo's current
sources to LLVM bitcode, run the symbolic executor on them, replay every
counterexample natively against the real code, write the evidence file.

usage: check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--keep] [-v]
exit 0: held on everything explored; exit 1: violation (VIOLATION line printed)
"""
import argparse, concurrent.futures, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "planner", "src")
sys.path.insert(0, VERIF)
from checks import HARNESSES, PROPERTIES  # noqa: E402

CLANG = "/usr/lib/llvm-18/bin/clang++"
LINK = "/usr/lib/llvm-18/bin/llvm-link"
COMMON = ["-std=c++17", "-DPP_ENABLE_ASSERT", "-UNDEBUG", "-DEIGEN_DONT_VECTORIZE", "-ffp-contract=off", "-w",
          "-include", "mm_malloc.h", "-include", "cassert", "-include", "algorithm"]
INC = ["-I" + os.path.join(VERIF, "rt", "shadow"), "-I" + os.path.join(VERIF, "rt"), "-I" + SRC]
BCFLAGS = ["-O1", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
           "-fno-inline-functions" if False else "-fno-threadsafe-statics", "-fno-math-errno", "-emit-llvm", "-c"]
NCPU = os.cpu_count() or 4


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_engine():
    exe = os.path.join(VERIF, "engine", "symex")
    srcs = [os.path.join(VERIF, "engine", f) for f in ("symex.cpp", "exec.inc", "ext.inc", "expr.cpp", "expr.h", "Makefile")]
    if os.path.exists(exe) and all(os.path.getmtime(exe) >= os.path.getmtime(s) for s in srcs):
        return exe
    r = sh(["make", "-C", os.path.join(VERIF, "engine"), "-j2", "symex"])
    if not os.path.exists(exe) or r.returncode:
        # sources may merely look newer after a copy
        if os.path.exists(exe) and sh([exe, "--entry", "x", "/dev/null"]).returncode in (0, 3):
            return exe
        log(r.stdout)
        raise SystemExit("engine build failed")
    return exe


class Builder:
    """Compiles sources once per (file, flags) into the scratch directory."""

    def __init__(self, work):
        self.work = work
        self.lock = threading.Lock()
        self.futs = {}
        self.pool = concurrent.futures.ThreadPoolExecutor(NCPU)

    def obj(self, src, flags, native):
        key = hashlib.sha1(repr((src, flags, native)).encode()).hexdigest()[:16]
        with self.lock:
            if key not in self.futs:
                out = os.path.join(self.work, key + (".o" if native else ".bc"))
                self.futs[key] = self.pool.submit(self._compile, src, flags, native, out)
            return self.futs[key]

    def _compile(self, src, flags, native, out):
        cmd = [CLANG] + COMMON + INC + flags + (["-c"] if native else BCFLAGS) + [src, "-o", out]
        r = sh(cmd)
        if r.returncode:
            return (None, r.stdout)
        return (out, "")


def repo_sources(h):
    allc = sorted(glob.glob(SRC + "/**/*.cpp", recursive=True))
    allc = [f for f in allc if not f.endswith(("core/log.cpp", "debug/profiler.cpp"))]
    if h.get("repo") is None:
        return allc
    return [f for f in allc if os.path.relpath(f, SRC) in h["repo"]]


def defs_of(h, tier):
    d = h.get("defs", {})
    if isinstance(d, dict):
        d = d.get(tier, d.get("quick", []))
    return list(d)


def link_bc(b, h, tier, work):
    hs = os.path.join(VERIF, "harness", h["src"])
    base = h.get("cflags", [])
    futs = [b.obj(os.path.join(VERIF, "rt", "rt.cpp"), [], False), b.obj(hs, base + defs_of(h, tier), False)]
    rs = repo_sources(h)
    futs += [b.obj(s, base, False) for s in rs]
    objs = []
    for f in futs:
        o, err = f.result()
        if not o:
            return None, err
        objs.append(o)
    out = os.path.join(work, h["name"] + ".linked.bc")
    r = sh([LINK, "-o", out] + objs)
    if r.returncode:
        return None, r.stdout
    if h.get("repo") is not None:
        # a helper may have moved to another translation unit: then link everything
        nm = sh(["/usr/lib/llvm-18/bin/llvm-nm", "-u", "--no-sort", out]).stdout
        if re.search(r"_ZN?K?V?7Planner|_ZT[IVS]N7Planner", nm):
            h2 = dict(h)
            h2["repo"] = None
            return link_bc(b, h2, tier, work)
    return out, ""


def native(b, h, tier, work, san):
    """Native build of the harness for replay."""
    flags = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr,function", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"] if san else ["-O2"]
    base = h.get("cflags", []) + flags
    hs = os.path.join(VERIF, "harness", h["src"])
    futs = [b.obj(os.path.join(VERIF, "rt", "vp_native.cpp"), flags + ["-DVP_ENTRY=" + h.get("entry", "harness")], True),
            b.obj(hs, base + defs_of(h, tier) + ["-DVP_NATIVE"], True)]
    futs += [b.obj(s, base, True) for s in repo_sources(h)]
    objs = []
    for f in futs:
        o, err = f.result()
        if not o:
            return None, err
        objs.append(o)
    exe = os.path.join(work, h["name"] + (".san" if san else ".nat"))
    r = sh([CLANG] + flags + objs + ["-o", exe] + h.get("libs", []))
    if r.returncode:
        if h.get("repo") is not None:
            return native(b, dict(h, repo=None), tier, work, san)
        return None, r.stdout
    return exe, ""


def run_native(exe, inputs, work, timeout=20, extra={}):
    fd, p = tempfile.mkstemp(dir=work, suffix=".in")
    with os.fdopen(fd, "w") as f:
        for n, v in inputs:
            f.write("%s %s\n" % (n, v))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99", UBSAN_OPTIONS="print_stacktrace=1:exitcode=99", **extra)
    try:
        r = subprocess.run([exe, p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=env, cwd=work)
        return r.returncode, r.stderr
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stderr or b"").decode(errors="replace") if isinstance(e.stderr, bytes) else (e.stderr or "")
    finally:
        os.unlink(p)


def confirm(b, h, tier, work, v):
    """Replay a counterexample natively. Returns (confirmed, text)."""
    kind = v["id"]
    texts = []
    for san in (False, True):
        exe, err = native(b, h, tier, work, san)
        if not exe:
            texts.append("native build failed: " + err[-400:])
            continue
        rc, out = run_native(exe, v["inputs"], work, 60 if kind == "hang" else 20)
        texts.append("%s rc=%s %s" % ("sanitized" if san else "plain", rc, out.strip()[-600:]))
        if rc == 77 or rc == 0:
            continue
        if rc == "timeout":
            return True, "\n".join(texts)
        # assertion (42), signal (negative) or sanitizer report (99)
        return True, "\n".join(texts)
    # The candidate may be consistent only in the abstraction (trigonometry, rounding): look for a
    # real one with the same choices and varied reals. Only what the real code does counts.
    exe, _ = native(b, h, tier, work, False)
    if exe and kind.startswith("assert:"):
        def one(i):
            rc, out = run_native(exe, v["inputs"], work, 10, {"VP_PERTURB": str(i)})
            return out if rc == 42 else None
        with concurrent.futures.ThreadPoolExecutor(NCPU) as p:
            for out in p.map(one, range(1, 161)):
                if out:
                    v["inputs"] = [tuple(l[6:].rsplit(" ", 1)) for l in out.splitlines() if l.startswith("INPUT ")]
                    return True, "concretised: " + out.strip()[:200]
    return False, "\n".join(texts)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def run_engine(exe, h, bc, tier, work, jobs, budget):
    out = os.path.join(work, h["name"] + ".out")
    t = h.get("time", {})
    tl = min(budget, t.get(tier, 300) if isinstance(t, dict) else t)
    cmd = [exe, bc, "--entry", h.get("entry", "harness"), "--out", out, "--time", str(tl), "--jobs", str(jobs), "--src", REPO + "/"] + h.get("flags", [])
    t0 = time.time()
    errf = open(out + ".err", "w")
    p = subprocess.Popen(cmd, stdout=errf, stderr=errf, start_new_session=True)
    # once a counterexample is out, exploring on for long adds nothing
    grace = None if h.get("_known") else 15
    seen = None
    while time.time() - t0 < tl + 60:
        try:
            p.wait(timeout=0.5)
            break
        except subprocess.TimeoutExpired:
            pass
        if grace is not None:
            if seen is None and any(b'"violation"' in open(f, "rb").read(1 << 20) for f in glob.glob(out + ".*") if not f.endswith((".err", ".smt2"))):
                seen = time.time()
            if seen is not None and time.time() - seen > grace:
                break
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    errf.close()
    res = {"stats": [], "violations": [], "died": 0, "rc": p.returncode, "wall": time.time() - t0, "err": open(out + ".err").read()[-2000:]}
    for f in glob.glob(out + ".*"):
        if f.endswith((".err", ".smt2")):
            continue
        has = False
        for line in open(f, errors="replace"):
            try:
                j = json.loads(line)
            except ValueError:
                continue
            if j["type"] == "stats":
                res["stats"].append(j)
                has = True
            elif j["type"] == "violation":
                res["violations"].append(j)
            elif j["type"] == "died":
                has = True
        if not has:
            res["died"] += 1
    return res


def merge(res):
    m = {}
    for k in ("paths", "insts", "queries", "unknown", "forks", "asserts", "asserts_solver", "solver_s", "infeasible", "cache_hits"):
        m[k] = sum(s.get(k, 0) for s in res["stats"])
    for k in ("reach", "assert_ids", "incomplete"):
        d = {}
        for s in res["stats"]:
            for a, n in s.get(k, {}).items():
                d[a] = d.get(a, 0) + n
        m[k] = d
    m["functions"] = sorted({f for s in res["stats"] for f in s.get("functions", {})})
    m["samples"] = [x for s in res["stats"] for x in s.get("samples", [])]
    return m


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    total = 840 if tier == "quick" else 14400
    exe = build_engine()
    work = tempfile.mkdtemp(prefix="vp_%s_" % a.prop)
    try:
        rc = check(a, tier, seed, t0, total, exe, work)
    finally:
        if a.keep:
            log("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def check(a, tier, seed, t0, total, exe, work):
    prop = a.prop
    hs = [h for h in HARNESSES if h["prop"] == prop and tier in h.get("tiers", ("quick", "thorough")) and (not a.only or h["name"] == a.only)]
    if not hs:
        log("no harness for", prop)
        return 2
    b = Builder(work)
    with concurrent.futures.ThreadPoolExecutor(len(hs)) as p:
        links = list(p.map(lambda h: link_bc(b, h, tier, work), hs))
    broken = [(h, e) for h, (bc, e) in zip(hs, links) if not bc]
    for h, e in broken:
        log("harness %s does not build against this tree:\n%s" % (h["name"], "\n".join([l for l in e.splitlines() if "error" in l or "undefined" in l][:6]) or e[-600:]))
    results = {}
    for k in load_known():
        for h in hs:
            if k.get("property") == prop and k.get("harness") == h["name"]:
                h["_known"] = True
    good = [(h, bc) for h, (bc, _) in zip(hs, links) if bc]
    heavy = [x for x in good if x[0].get("jobs", 1) > 1]
    light = [x for x in good if x[0].get("jobs", 1) <= 1]

    def left():
        return max(10, total - 150 - (time.time() - t0)) if tier == "quick" else max(10, total - (time.time() - t0))

    if light:
        with concurrent.futures.ThreadPoolExecutor(NCPU) as p:
            for h, r in zip([x[0] for x in light], p.map(lambda x: run_engine(exe, x[0], x[1], tier, work, 1, left()), light)):
                results[h["name"]] = r
    for h, bc in heavy:
        results[h["name"]] = run_engine(exe, h, bc, tier, work, min(NCPU, h["jobs"]), left())

    known = [k for k in load_known() if k.get("property") == prop]
    vios, knowns, unconfirmed, incomplete = [], [], [], []
    cov_h, tot = [], {}
    validated = 0
    disagreements = []
    for h, _ in good:
        r = results[h["name"]]
        m = merge(r)
        inc = dict(m["incomplete"])
        if r["died"] or not r["stats"]:
            inc["executor process died"] = r["died"] or 1
            log(h["name"], "executor:", r["err"])
        missing = [x for x in h.get("expect", []) if not m["reach"].get(x)]
        if missing:
            inc["witness not reached: " + ",".join(missing)] = 1
        # counterexamples, grouped by id
        byid = {}
        for v in r["violations"]:
            byid.setdefault(v["id"], []).append(v)
        for vid, vs in sorted(byid.items()):
            vs.sort(key=lambda v: (v.get("uncertain", False), len(v["inputs"])))
            done = False
            for v in vs[:6]:
                ok, text = confirm(b, h, tier, work, v)
                kf = [k for k in known if k.get("harness") == h["name"] and re.fullmatch(k["id"], vid) and re.search(k.get("where", ""), v.get("where", ""))]
                if ok:
                    if kf:
                        knowns.append((kf[0], v))
                        done = True
                        continue
                    d = os.path.join(VERIF, "evidence", "replay")
                    os.makedirs(d, exist_ok=True)
                    rp = os.path.join(d, "%s-%s-%s.txt" % (prop, h["name"], re.sub(r"[^A-Za-z0-9_.-]+", "_", vid)))
                    with open(rp, "w") as f:
                        f.write("%% property %s harness %s (%s) tier %s\n%% %s: %s\n%% at %s\n" % (prop, h["name"], h["src"], tier, vid, v["detail"], v["where"]))
                        for l in text.splitlines():
                            f.write("%% " + l + "\n")
                        f.write("%% replay: python3 %s %s %s\n" % (os.path.join(VERIF, "replay.py"), prop, rp))
                        for n, val in v["inputs"]:
                            f.write("%s %s\n" % (n, val))
                    vios.append((h, v, rp))
                    done = True
                    break
                v["replay_text"] = text
            if not done:
                unconfirmed.append((h["name"], vid, vs[0]))
        if inc:
            incomplete.append((h["name"], inc))
        # executor against implementation: replay sampled path models natively
        if m["samples"] and not h.get("noval"):
            nexe, err = native(b, h, tier, work, False)
            if nexe:
                step = max(1, len(m["samples"]) // 6)
                for smp in m["samples"][::step][:6]:
                    rc, out = run_native(nexe, smp["inputs"], work)
                    tr = re.findall(r"^reach (.*)$", out, re.M)
                    if rc == 0 and tr == smp["trace"]:
                        validated += 1
                    elif rc != 77 and not r["violations"]:
                        disagreements.append({"harness": h["name"], "rc": str(rc), "native": tr, "symbolic": smp["trace"], "inputs": smp["inputs"][:20]})
            else:
                log("native build failed", err[-500:])
        cov_h.append({"harness": h["name"], "bounds": h.get("bounds_" + tier, h.get("bounds", "")), "paths": m["paths"], "forks": m["forks"], "assertions_checked": m["asserts"],
                      "obligations_by_id": m["assert_ids"], "solver_queries": m["queries"], "solver_s": round(m["solver_s"], 3), "solver_unknown": m["unknown"],
                      "instructions": m["insts"], "witnesses": m["reach"], "complete": not inc, "not_complete": inc, "wall_s": round(r["wall"], 2), "mode": "ieee" if "--ieee" in h.get("flags", []) else "real/int"})
        for k in ("paths", "forks", "insts", "queries", "asserts", "asserts_solver", "solver_s", "unknown"):
            tot[k] = tot.get(k, 0) + m[k]
        tot.setdefault("functions", set()).update(m["functions"])
        tot.setdefault("samples", []).extend([{"harness": h["name"], "inputs": {n: v for n, v in s["inputs"][:12]}, "trace": s["trace"][:6]} for s in m["samples"][:2]])
        log("%-28s %6.1fs paths %-7d forks %-7d queries %-7d solver %.1fs unknown %d asserts %d vio %d%s" % (
            h["name"], r["wall"], m["paths"], m["forks"], m["queries"], m["solver_s"], m["unknown"], m["asserts"], len(r["violations"]), "" if not inc else "  INCOMPLETE " + json.dumps(inc)[:300]))
    for n, vid, v in unconfirmed:
        log("unconfirmed counterexample (not reported): %s %s at %s\n  %s\n  inputs %s" % (n, vid, v["where"][:300], v.get("replay_text", "")[:600], v["inputs"][:40]))
    for d in disagreements:
        log("native/symbolic trace differs:", json.dumps(d)[:600])

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(tot.get("paths", 0) + tot.get("forks", 0)),
            "transitions": int(tot.get("insts", 0)),
            "traces_validated_against_impl": validated,
            "samples": tot.get("samples", [])[:12] or ["no symbolic input"],
            "solver_queries": int(tot.get("queries", 0)),
            "solver_s": round(tot.get("solver_s", 0), 3),
            "solver_unknown": int(tot.get("unknown", 0)),
            "obligations": int(tot.get("asserts", 0)),
            "obligations_by_solver": int(tot.get("asserts_solver", 0)),
            "functions_encoded": sorted(tot.get("functions", [])),
            "harnesses": cov_h,
            "trace_disagreements": disagreements,
            "unconfirmed_counterexamples": [{"harness": n, "id": i} for n, i, _ in unconfirmed],
            "not_built": [h["name"] for h, _ in broken],
            "explanation": "states = symbolic states explored (completed paths + forks); transitions = LLVM instructions executed symbolically; every assertion is decided by Z3 for all values of the path's inputs",
        },
        "assumptions": PROPERTIES[prop]["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(vios),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    seen = set()
    for k, v in knowns:
        if k["what"] not in seen:
            seen.add(k["what"])
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for h, v, rp in vios:
        log("violation %s %s at %s" % (h["name"], v["id"], v["where"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    if vios:
        return 1
    if broken and not good:
        return 2
    return 0


if __name__ == "__main__":
    main()
