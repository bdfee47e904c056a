#!/usr/bin/env python3
"""seed.py [ID...]: builds /verif/seeded/<id>/ from scripts/bugs.py. Every bug is
tried out in a scratch copy of /repo: it must build, pass the existing tests,
and its demonstration must fail with it and pass without it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = {}
def bug(id, prop, edits, needs, breaks, demo, pkg="", lib=False, files=None):
    BUGS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, pkg=pkg, lib=lib, files=files or {})
exec(open(V + "/scripts/bugs.py").read())

DEMO = '''#!/bin/bash
# fails if the change is in place; run in the repository after its build
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off
t="$(mktemp -d)"
python3 - "$here" "$PWD" "$t/overlay.json" <<'PY'
import json, os, sys
here, repo, out = sys.argv[1:]
json.dump({"Replace": {os.path.join(repo, "%(pkg)s", "zz_demo_" + f): os.path.join(here, f) for f in os.listdir(here) if f.endswith("_test.go")}}, open(out, "w"))
PY
exec go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run '^TestDemo$' "./%(pkg)s"
'''
ENV = dict(os.environ)
for kv in subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], capture_output=True, text=True).stdout.split("\0"):
    if "=" in kv:
        k, v = kv.split("=", 1); ENV[k] = v
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=ENV, **kw)
BASE = "f18e84b"
def changes_original(R, patch):
    """some line the patch removes stems from the original repository"""
    import re
    f, n = None, 0
    if not any(l.startswith("-") and not l.startswith("---") for l in patch.split("\n")):
        return True
    for l in patch.split("\n"):
        if l.startswith("--- a/"):
            f = l[6:]
            orig = {int(b.split(")")[0].split()[-1]) for b in sh(["git", "blame", "-s", "HEAD", "--", f], R).stdout.split("\n")
                    if b and sh(["git", "merge-base", "--is-ancestor", b.split()[0].lstrip("^"), BASE], R).returncode == 0}
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            if n in orig:
                return True
            n += 1
        elif l.startswith(" "):
            n += 1
    return False
stable = [t for t in json.load(open("/opt/vp/BASELINE.json"))] if False else None
todo = sys.argv[1:] or list(BUGS)
for id in todo:
    b = BUGS[id]
    W = tempfile.mkdtemp(prefix="seed-")
    R = W + "/repo"
    subprocess.run(["cp", "-a", "/repo", R], check=True)
    sh(["git", "checkout", "-q", "--", "."], R)
    D = W + "/demo"
    os.makedirs(D)
    open(D + "/demo.sh", "w").write(DEMO % b)
    open(D + "/demo_test.go", "w").write(b["demo"])
    if b["lib"]:
        s = open(V + "/harness/xpdf/lib_test.go").read()
        open(D + "/lib_test.go", "w").write(s + "\ntype verifFail struct{ msg string }\n")
    for n, c in b["files"].items():
        open(D + "/" + n, "w").write(c)
    r0 = sh(["bash", D + "/demo.sh"], R)
    if r0.returncode != 0:
        print(id, "demo fails on the unchanged tree", r0.stdout[-1500:], r0.stderr[-1500:]); continue
    ok = True
    for f, old, new in b["edits"]:
        s = open(R + "/" + f).read()
        if s.count(old) != 1:
            print(id, "edit text occurs", s.count(old), "times in", f); ok = False; break
        open(R + "/" + f, "w").write(s.replace(old, new))
    if not ok:
        continue
    patch = sh(["git", "diff"], R).stdout
    if not changes_original(R, patch):
        print(id, "changes no line of the original repository"); continue
    r = sh(["go", "build", "./..."], R)
    if r.returncode != 0:
        print(id, "does not build", r.stderr); continue
    r = sh(["go", "test", "-vet=off", "-count=1", "./..."], R)
    if r.returncode != 0:
        print(id, "existing tests fail", r.stdout[-1500:]); continue
    r1 = sh(["bash", D + "/demo.sh"], R)
    if r1.returncode == 0:
        print(id, "demo passes with the change"); continue
    if "build failed" in r1.stdout + r1.stderr:
        print(id, "demo does not compile with the change", r1.stdout, r1.stderr); continue
    S = V + "/seeded/" + id
    os.makedirs(S, exist_ok=True)
    for f in os.listdir(S):
        os.remove(S + "/" + f)
    for f in os.listdir(D):
        shutil.copy(D + "/" + f, S + "/" + f)
    open(S + "/patch.diff", "w").write(patch)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(S + "/meta.json", "w"), indent=1)
    print(id, "ok:", (r1.stdout + r1.stderr).strip().split("\n")[1][:150])
    shutil.rmtree(W)
