#!/usr/bin/env python3
"""mutants.py MUTS.json OUT.jsonl N SEED [file-substring] - runs random small changes of /repo (listed by
tools/mutate) through the stable tests and then the quick checks, via build overlays; /repo is not touched.
Development aid: prints the changes that no check notices."""
import sys, os, json, random, subprocess, tempfile, shutil, time, concurrent.futures as cf
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
muts, outp, n, seed = json.load(open(sys.argv[1])), sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
sub = sys.argv[5] if len(sys.argv) > 5 else ""
full = os.environ.get("FULL")
workers = int(os.environ.get("WORKERS", "4"))
muts = [m for m in muts if "traceParsing" not in m["text"] and sub in m["file"] and "rewrite_condition.go" not in m["file"] and m["file"] != "builder/outline_builder.go"]
random.Random(seed).shuffle(muts)
seen = set()
if os.path.exists(outp):
    for l in open(outp):
        r = json.loads(l); seen.add((r["file"], r["off"], r["end"], r["text"]))
muts = [m for m in muts if (m["file"], m["off"], m["end"], m["text"]) not in seen][:n]
BIN = tempfile.mkdtemp(prefix="mut")
env = dict(os.environ, PATH="/usr/local/go/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod",
    VERIF_SEED="1", VERIF_TIER="quick", GOCACHE=BIN + "/cache", GOMAXPROCS="3")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
shutil.copytree(here + "/harness", BIN + "/src")
ALL = ["P%02d" % i for i in range(1, 29)]
def order(f):
    if os.environ.get("CHECKS"): return os.environ["CHECKS"].split(",")
    first = []
    if f == "date.go": first = ["P25"]
    elif f == "parse.go" or "parsing_buffer" in f: first = ["P27", "P01", "P02", "P24", "P03"]
    elif f.startswith("mask/"): first = ["P09", "P10", "P22"]
    elif "glyphrule" in f: first = ["P17", "P20", "P21", "P19"]
    elif "utf8rule" in f: first = ["P18", "P20", "P21", "P19"]
    elif "cache" in f: first = ["P13", "P20"]
    elif f.startswith("builder/"): first = ["P23", "P26", "P04", "P03"]
    elif f == "font.go": first = ["P12", "P16", "P15", "P14", "P05", "P06", "P07", "P08", "P11"]
    elif "circular" in f or "rerules" in f: first = ["P17", "P18", "P20"]
    if not full:
        if f == "date.go": return first + ["P05", "P23"]
        if f == "font.go": return first + ["P27", "P28", "P03", "P13", "P24", "P22", "P01"]
        if f == "parse.go" or "parsing_buffer" in f: return first + ["P05", "P12", "P16", "P26", "P28"]
        if f.startswith("builder/"): return first + ["P08", "P24", "P22", "P28"]
        if f.startswith("mask/"): return first + ["P08", "P03", "P28"]
        if "rule" in f or "circular" in f: return ["P17", "P18", "P20", "P21", "P19", "P22"] if "glyphrule" not in f and "utf8rule" not in f else first + ["P22"]
    return first + [p for p in ALL if p not in first]
def one(m):
    t = tempfile.mkdtemp(dir=BIN)
    try:
        src = open("/repo/" + m["file"], "rb").read()
        open(t + "/m.go", "wb").write(src[:m["off"]] + m["text"].encode() + src[m["end"]:])
        json.dump({"Replace": {"/repo/" + m["file"]: t + "/m.go"}}, open(t + "/o.json", "w"))
        r = subprocess.run(["go", "build", "-overlay", t + "/o.json", "./..."], cwd="/repo", env=env, capture_output=True, text=True)
        if r.returncode: return dict(m, res="nocompile")
        try: r = subprocess.run(["go", "test", "-timeout", "60s", "-json", "-vet=off", "-count=1", "-overlay", t + "/o.json", "./..."], cwd="/repo", env=env, capture_output=True, text=True, timeout=150)
        except subprocess.TimeoutExpired: return dict(m, res="tests")
        passed = set()
        for l in r.stdout.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get("Action") == "pass" and e.get("Test"): passed.add(e["Package"] + "/" + e["Test"])
        if stable - passed: return dict(m, res="tests")
        r = subprocess.run(["go", "build", *(["-race"] if os.environ.get("RACE") else []), "-overlay", t + "/o.json", "-o", t + "/vchk", "."], cwd=BIN + "/src", env=env, capture_output=True, text=True)
        if r.returncode: return dict(m, res="nocompile")
        os.makedirs(t + "/verif"); shutil.copy(here + "/known-findings.txt", t + "/verif/")
        killed, odd = [], []
        for p in order(m["file"]):
            try: r = subprocess.run(["bash", "-c", f"{'' if os.environ.get('RACE') else 'ulimit -v 40000000;'} exec {t}/vchk {t}/verif {p} quick"], env=env, capture_output=True, text=True, timeout=int(os.environ.get("LIMIT", "200")))
            except subprocess.TimeoutExpired: odd.append(p + ":timeout"); subprocess.run(["pkill", "-f", t + "/vchk"]); killed.append(p + "(t)"); 
            else:
                if r.returncode == 1 and "VIOLATION" in r.stdout: killed.append(p)
                elif r.returncode: odd.append(f"{p}:exit{r.returncode}:{r.stdout[-200:]}{r.stderr[-200:]}")
            if killed and not full: break
        return dict(m, res="killed" if killed else "SURVIVED", by=killed, odd=odd)
    except Exception as e:
        return dict(m, res="error", msg=repr(e))
    finally:
        shutil.rmtree(t, ignore_errors=True)
cnt = {}
t0 = time.time()
try:
    with cf.ThreadPoolExecutor(workers) as ex, open(outp, "a") as o:
        for i, r in enumerate(ex.map(one, muts)):
            cnt[r["res"]] = cnt.get(r["res"], 0) + 1
            o.write(json.dumps(r) + "\n"); o.flush()
            if r["res"] == "SURVIVED" or r.get("odd") or r["res"] == "error": print(f"{r['res']} {r['file']}:{r['line']} {r['func']} [{r['kind']}] -> {r['text'][:100]!r} {r.get('odd','')} {r.get('msg','')}", flush=True)
            if i % 50 == 49:
                print(f"-- {i+1} {cnt} {time.time()-t0:.0f}s", flush=True)
finally:
    shutil.rmtree(BIN, ignore_errors=True)
