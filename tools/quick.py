#!/usr/bin/env python3
"""quick.py FILE.py [name...] - FILE.py sets BUGS = [(property, name, [(file, old, new), ...]), ...]; each is
built through an overlay, run through the stable tests, then through its property's quick check. Development aid."""
import sys, os, json, subprocess, tempfile, shutil, concurrent.futures as cf
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
env = dict(os.environ, PATH="/usr/local/go/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod",
    VERIF_SEED=os.environ.get("SEED", "1"), VERIF_TIER="quick")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def one(b):
    prop, name, edits = b
    t = tempfile.mkdtemp(prefix="quick")
    try:
        cur = {}
        for f, old, new in edits:
            s = cur.get(f) or open("/repo/" + f).read()
            if s.count(old) != 1: return prop, name, f"EDIT matches {s.count(old)} times: {old[:80]!r}"
            cur[f] = s.replace(old, new)
        rep = {}
        for i, (f, s) in enumerate(cur.items()):
            open(f"{t}/m{i}.go", "w").write(s); rep["/repo/" + f] = f"{t}/m{i}.go"
        json.dump({"Replace": rep}, open(t + "/o.json", "w"))
        r = subprocess.run(["go", "build", "-overlay", t + "/o.json", "./..."], cwd="/repo", env=env, capture_output=True, text=True)
        if r.returncode: return prop, name, "NOCOMPILE " + r.stderr[-400:]
        r = subprocess.run(["go", "test", "-timeout", "60s", "-json", "-vet=off", "-count=1", "-overlay", t + "/o.json", "./..."], cwd="/repo", env=env, capture_output=True, text=True)
        passed = set()
        for l in r.stdout.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get("Action") == "pass" and e.get("Test"): passed.add(e["Package"] + "/" + e["Test"])
        if stable - passed: return prop, name, "fails tests " + str(stable - passed)
        shutil.copytree(here + "/harness", t + "/src")
        race = ["-race"] if prop == "P22" else ["-gcflags=github.com/tinne26/ggfnt/...=-d=checkptr"]
        r = subprocess.run(["go", "build", *race, "-overlay", t + "/o.json", "-o", t + "/vchk", "."], cwd=t + "/src", env=env, capture_output=True, text=True)
        if r.returncode: return prop, name, "HARNESS " + r.stderr[-300:]
        os.makedirs(t + "/verif"); shutil.copy(here + "/known-findings.txt", t + "/verif/")
        r = subprocess.run([t + "/vchk", t + "/verif", prop, "quick"], env=env, capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        if r.returncode == 1 and v: return prop, name, "caught"
        return prop, name, f"MISSED (exit {r.returncode}) {r.stdout[-200:] if r.returncode else ''}"
    finally:
        shutil.rmtree(t, ignore_errors=True)
bugs = [b for b in ns["BUGS"] if not want or b[1] in want]
with cf.ThreadPoolExecutor(int(os.environ.get("WORKERS", "3"))) as ex:
    for p, n, r in ex.map(one, bugs): print(f"{p} {n:34} {r}", flush=True)
