#!/usr/bin/env python3
"""plant.py SPEC.py [check|keep] - builds /verif/seeded/<id> from a spec and confirms it.
A spec sets: id, prop, needs, breaks, edits=[(file, old, new), ...], demo (Go main source).
Works on a scratch copy of /repo; never touches /repo."""
import sys, os, subprocess, json, shutil, tempfile, re
spec = {}
exec(open(sys.argv[1]).read(), spec)
BASE = "83be288"
env = dict(os.environ, PATH="/usr/local/go/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; 1: it is broken
set -u
export PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 0
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/demo.go.txt"}}' "$PWD" "$here" >"$t/overlay.json"
go build RACEFLAG -overlay "$t/overlay.json" -o "$t/demo" ./zz_demo || { echo "demo: build failed"; exit 2; }
timeout 120 "$t/demo"
'''
tmp = tempfile.mkdtemp(prefix="plant")
try:
    repo = tmp + "/repo"
    shutil.copytree("/repo", repo, symlinks=True)
    run = lambda *a, **k: subprocess.run(a, env=env, text=True, capture_output=True, **k)
    for f, old, new in spec["edits"]:
        s = open(f"{repo}/{f}").read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(f"{repo}/{f}", "w").write(s.replace(old, new))
    patch = run("git", "-C", repo, "diff").stdout
    # at least one removed line must be an original one
    orig = False; cur = None
    for l in patch.splitlines():
        if l.startswith("--- a/"): cur = run("git", "-C", repo, "show", f"{BASE}:{l[6:]}").stdout.split("\n")
        elif l.startswith("-") and l[1:].strip():
            if l[1:] in cur: orig = True
            else: print("note: not an original line:", l)
    assert orig, "changes no original line"
    d = f"{here}/seeded/{spec['id']}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(patch)
    race = "-race" if spec.get("race") else ""
    open(d + "/demo.sh", "w").write(DEMO.replace("RACEFLAG ", race + " " if race else ""))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.go.txt", "w").write(spec["demo"].lstrip())
    json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    r = run("go", "build", "./...", cwd=repo)
    if r.returncode: print("BUILD", r.stderr); ok = False
    b = json.load(open("/opt/vp/BASELINE.json"))
    r = run("go", "test", "-json", "-vet=off", "-count=1", "./...", cwd=repo)
    passed = set()
    for l in r.stdout.splitlines():
        e = json.loads(l)
        if e.get("Action") == "pass" and e.get("Test"): passed.add(e["Package"] + "/" + e["Test"])
    if set(b["stable"]) - passed: print("TESTS", set(b["stable"]) - passed); ok = False
    r = run(d + "/demo.sh", cwd=repo)
    if r.returncode == 0 or "build failed" in r.stdout: print("DEMO ON BUG exit", r.returncode, r.stdout, r.stderr); ok = False
    else: print("demo on bug:", (r.stdout + r.stderr).strip()[:300])
    r = run(d + "/demo.sh", cwd="/repo")
    if r.returncode: print("DEMO ON CLEAN", r.returncode, r.stdout, r.stderr); ok = False
    if not ok:
        shutil.rmtree(d); sys.exit("rejected " + spec["id"])
    print("kept", spec["id"])
finally:
    shutil.rmtree(tmp)
