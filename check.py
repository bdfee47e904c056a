#!/usr/bin/env python3
"""check.py Cxx: decides property Cxx on /repo's working tree.

1. govc generates the proof obligations of the contracts the property rests on
   from /repo's current source and has them discharged.
2. The same property is put to the real code on drawn cases (bounded): this
   replays failed obligations on the code and guards the trusted contracts.
"""
import json, os, subprocess, sys, time, glob, tempfile, threading

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKGDIR = {"xpdf": "", "xpdfin": "", "hyphenation": "hyphenation", "text": "text", "style": "style", "xdoc": "xdoc", "font": "font", "engine": "engine"}
ENV = dict(os.environ)
if os.path.exists("/opt/vp/env.sh"):
    o = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], capture_output=True, text=True).stdout
    for kv in o.split("\0"):
        if "=" in kv:
            k, v = kv.split("=", 1)
            ENV[k] = v
ENV["GOFLAGS"] = "-mod=mod"
ENV["GOPROXY"] = "off"


def harnesses(prop):
    out = []
    for d in sorted(glob.glob(V + "/harness/*")):
        name = os.path.basename(d)
        if name == "common":
            continue
        for f in glob.glob(d + "/*_test.go"):
            if "TestVerif_%s(" % prop in open(f).read():
                out.append(name)
                break
    return out


def run_harness(prop, tmp, ms, res, only=None):
    """runs the drawn cases of a property; res collects the outcome"""
    res["stats"], res["fails"], res["errors"] = [], [], []
    for name in harnesses(prop):
        d = V + "/harness/" + name
        sub = PKGDIR[name]
        rep = {}
        pkg = None
        # only the files this property needs: the one with its test, and helpers
        for f in sorted(glob.glob(d + "/*_test.go")):
            src = open(f).read()
            if pkg is None:
                pkg = [l for l in src.split("\n") if l.startswith("package ")][0].split()[1]
            rep[os.path.join(REPO, sub, "zz_verif_%s_%s" % (name, os.path.basename(f)))] = f
        common = os.path.join(tmp, name + "_common_test.go")
        open(common, "w").write(open(V + "/harness/common/common_test.go").read().replace("package PKG", "package " + pkg))
        rep[os.path.join(REPO, sub, "zz_verif_%s_common_test.go" % name)] = common
        ov = os.path.join(tmp, name + "_overlay.json")
        json.dump({"Replace": rep}, open(ov, "w"))
        env = dict(ENV)
        fail = os.path.join(tmp, name + "_fail.json")
        stats = os.path.join(tmp, name + "_stats.json")
        env.update({"VERIF_PROP": prop, "VERIF_MS": str(ms), "VERIF_FAIL": fail, "VERIF_STATS": stats,
                    "VERIF_SEED": str(os.environ.get("VERIF_SEED") or "1")})
        if only is not None:
            env["VERIF_CASE"] = str(only)
        cmd = ["go", "test", "-vet=off", "-count=1", "-timeout", "600s", "-overlay", ov, "-run", "^TestVerif_%s$" % prop, "./" + sub]
        try:
            r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True, timeout=700)
        except subprocess.TimeoutExpired:
            res["errors"].append("%s: timeout" % name)
            continue
        if os.path.exists(stats):
            for l in open(stats):
                res["stats"].append(json.loads(l))
        if os.path.exists(fail):
            f = json.load(open(fail))
            f["output"] = r.stdout[-4000:]
            res["fails"].append(f)
        elif r.returncode != 0:
            o = r.stdout + r.stderr
            if "panic: test timed out" in o or "--- FAIL" in o or "fatal error: stack overflow" in o or "goroutine stack exceeds" in o or "fatal error" in o:
                res["fails"].append({"property": prop, "violation": "the code under test does not return", "output": o[-6000:]})
            else:
                res["errors"].append("%s: %s" % (name, o[-3000:]))


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        tmp = tempfile.mkdtemp(prefix="verif-")
        res = {}
        run_harness(sys.argv[2], tmp, 60000, res, only=os.environ.get("VERIF_CASE"))
        print(json.dumps(res, indent=1))
        sys.exit(1 if res["fails"] else 0)
    prop = sys.argv[1]
    t0 = time.time()
    # "proof", or "exploration" for a property that is only checked on drawn cases (bounded)
    level = "proof"
    for c in json.load(open(V + "/MANIFEST.json"))["checks"]:
        if c["property"] == prop:
            level = c["level"]
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    os.makedirs(V + "/evidence", exist_ok=True)
    os.makedirs(V + "/evidence/replay", exist_ok=True)
    govc = V + "/bin/govc"
    if not os.path.exists(govc) or any(os.path.getmtime(f) > os.path.getmtime(govc) for f in glob.glob(V + "/tool/*.go")):
        subprocess.run(["bash", V + "/build.sh"], env=ENV, check=True)
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        hres = {}
        ms = 60000 if tier == "thorough" else (20000 if level != "proof" else 8000)
        th = threading.Thread(target=run_harness, args=(prop, tmp, ms, hres))
        th.start()
        out = os.path.join(tmp, "report.json")
        to = 3000 if tier == "thorough" else 700
        gout = ""
        try:
            g = None if level != "proof" else subprocess.run([govc, "-repo", REPO, "-specs", V + "/contracts", "-learned", V + "/contracts/learned.json", "-prop", prop, "-out", out], env=ENV, capture_output=True, text=True, timeout=to)
            if g is not None:
                gout = g.stdout + g.stderr
        except subprocess.TimeoutExpired as e:
            gout = "verifier ran out of time after %d s" % to
        th.join()
        rep = {"ok": True, "obligations": 0, "discharged": 0} if level != "proof" else json.load(open(out)) if os.path.exists(out) else {"ok": False, "error": gout[-3000:], "obligations": 0, "discharged": 0, "failed": [], "unsupported": []}
    if (rep.get("error") or "").startswith("load:"):
        print(rep["error"])
        sys.exit(2)
    findings = []
    if os.path.exists(V + "/known-findings.txt"):
        for l in open(V + "/known-findings.txt"):
            if l.startswith("finding: property=%s " % prop):
                findings.append(l.split(" ", 2)[2].strip())
    proved = bool(rep.get("ok"))
    fails = hres.get("fails", [])
    nt = sum(s["distinct_nontrivial"] for s in hres.get("stats", []))
    ev = sum(s["evaluations"] for s in hres.get("stats", []))
    trusted = [t if t.startswith("clause ") else "%s (contract assumed)" % t for t in rep.get("trusted") or []]
    trusted += ["axiom " + a for a in rep.get("axioms") or []]
    trusted += ["%s (no contract: any result, no effect on the program's own memory)" % t for t in rep.get("externs_unconstrained") or []]
    trusted += ["go/types, go/ssa (x/tools) and the obligation generator /verif/tool", "z3, cvc5"]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": rep.get("obligations", 0), "discharged": rep.get("discharged", 0),
            "checker_cmd": "bin/govc -repo /repo -specs contracts -prop " + prop,
            "trusted_base": trusted,
            "functions_under_contract": rep.get("functions"), "inlined_functions": rep.get("inlined"),
            "obligation_kinds": rep.get("kinds"), "backends": rep.get("backends"), "solver_seconds": rep.get("solver_seconds"),
            "verifier_seconds": rep.get("seconds"), "paths": rep.get("paths"), "loops": rep.get("loops"),
            "loop_invariants": len(rep.get("invariants") or []), "lemmas": rep.get("lemmas"),
            "failed": rep.get("failed"), "unsupported": rep.get("unsupported"), "error": rep.get("error"),
            "evaluations": ev, "distinct_nontrivial": nt,
            "rule": ("bounded, not part of the proof: " if level == "proof" else "bounded: ") + "; ".join(s["rule"] for s in hres.get("stats", [])),
            "samples": [x for s in hres.get("stats", []) for x in (s.get("samples") or [])] or ["none"],
            "bounded_errors": hres.get("errors"),
        },
        "assumptions": [
            "float64 arithmetic is treated as exact real arithmetic (x/0 = 0), int as unbounded integers",
            "nil pointer dereferences and concurrent use are not considered",
            "objects handed in are not aliased except where the types allow it",
        ],
        "wall_s": 0, "violations": 0,
    }
    if level != "proof":
        evidence["coverage"] = {k: evidence["coverage"][k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples", "bounded_errors")}
        evidence["assumptions"] = ["nothing is claimed beyond the drawn cases"]
    if level != "proof" and not fails and (hres.get("errors") or ev == 0):
        print("no drawn case was run:", (hres.get("errors") or ["none"])[0][-3000:])
        sys.exit(2)
    code = 0
    if not proved or fails:
        code = 1
        path = V + "/evidence/replay/%s.json" % prop
        json.dump({"property": prop, "failed_obligations": rep.get("failed"), "unsupported": rep.get("unsupported"), "verifier_error": rep.get("error"),
                   "verifier_output": gout[-6000:], "failing_input": fails, "replay_errors": hres.get("errors")}, open(path, "w"), indent=1)
        for o in rep.get("failed") or []:
            print("failed obligation: %s: %s %s (%s)" % (o["function"], o["kind"], o["obligation"], o["status"]))
        for u in rep.get("unsupported") or []:
            print("not verified:", u)
        if rep.get("error"):
            print("verifier:", rep["error"])
        for f in fails:
            print("failing input:", f.get("violation"), "--", str(f.get("case"))[:600])
        tail = "" if fails else " no-failing-input-found"
        print("VIOLATION property=%s replay=%s%s" % (prop, path, tail))
        evidence["violations"] = 1
    else:
        for f in findings:
            print("KNOWN-FINDING: property=%s %s" % (prop, f))
        if level == "proof":
            print("%s holds: %d/%d obligations discharged, %d drawn cases" % (prop, rep["discharged"], rep["obligations"], ev))
        else:
            print("%s holds on %d drawn cases (bounded)" % (prop, ev))
        if hres.get("errors"):
            print("note: replay side unavailable:", hres["errors"][0][-500:])
    evidence["wall_s"] = round(time.time() - t0, 2)
    json.dump(evidence, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    sys.exit(code)


main()
