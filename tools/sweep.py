#!/usr/bin/env python3
"""sweep.py [id...] [--all-checks] - runs each planted bug's check on a scratch copy of /repo
(the harness is compiled against the copy), prints caught/missed. Development aid only."""
import sys, os, subprocess, json, shutil, tempfile, glob, concurrent.futures as cf
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, PATH="/usr/local/go/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod", VERIF_SEED="1", VERIF_TIER="quick")
args = [a for a in sys.argv[1:] if not a.startswith("--")]
ids = args or sorted(os.path.basename(p) for p in glob.glob(here + "/seeded/*"))
allc = "--all-checks" in sys.argv
checks = [c["property"] for c in json.load(open(here + "/MANIFEST.json"))["checks"]]
def one(id):
    meta = json.load(open(f"{here}/seeded/{id}/meta.json"))
    tmp = tempfile.mkdtemp(prefix="sweep")
    try:
        shutil.copytree("/repo", tmp + "/repo", symlinks=True)
        r = subprocess.run(["git", "-C", tmp + "/repo", "apply", f"{here}/seeded/{id}/patch.diff"], capture_output=True, text=True)
        if r.returncode: return id, meta["property"], "PATCH FAILS " + r.stderr
        shutil.copytree(here + "/harness", tmp + "/src")
        m = open(tmp + "/src/go.mod").read().replace("=> /repo", "=> " + tmp + "/repo")
        open(tmp + "/src/go.mod", "w").write(m)
        os.makedirs(tmp + "/verif"); shutil.copy(here + "/known-findings.txt", tmp + "/verif/")
        out = []
        for p in (checks if allc else [meta["property"]]):
            race = ["-race"] if p == "P22" else ["-gcflags=github.com/tinne26/ggfnt/...=-d=checkptr"]
            r = subprocess.run(["go", "build", *race, "-o", tmp + "/vchk", "."], cwd=tmp + "/src", env=env, capture_output=True, text=True)
            if r.returncode: return id, meta["property"], "HARNESS BUILD " + r.stderr[-500:]
            r = subprocess.run([tmp + "/vchk", tmp + "/verif", p, "quick"], env=env, capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            if r.returncode == 1 and v: out.append(p)
            elif r.returncode: out.append(f"{p}:exit{r.returncode}:{r.stdout[-300:]}{r.stderr[-300:]}")
        return id, meta["property"], ("caught by " + " ".join(out)) if out else "MISSED"
    finally:
        shutil.rmtree(tmp)
with cf.ThreadPoolExecutor(3) as ex:
    for id, p, res in ex.map(one, ids): print(f"{id:40} {p} {res}", flush=True)
