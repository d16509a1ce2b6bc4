#!/usr/bin/env python3
"""seed.py FILE.py: confirm planted bugs in a scratch copy of /repo and store them under seeded/.
FILE.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, what, files={name: text})].
seed.py --run [ID...]: apply each stored patch to a scratch copy and run the check of its property against it."""
import json, os, shutil, subprocess, sys, runpy
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "/tmp/seedcopy"
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, capture_output=True, text=True, **k)
def fresh():
    shutil.rmtree(T, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", os.environ.get("OCT_REPO", "/repo"), T])
def build(): return sh("go build ./... && go build -o oct .", T)
def plant(s):
    d = os.path.join(H, "seeded", s["id"])
    stage = "/tmp/seedstage"
    shutil.rmtree(stage, ignore_errors=True); os.makedirs(stage)
    with open(stage + "/demo.sh", "w") as f: f.write(s["demo"])
    for n, t in s.get("files", {}).items():
        with open(os.path.join(stage, n), "w") as f: f.write(t)
    fresh()
    assert build().returncode == 0
    r = sh("sh %s/demo.sh" % stage, T)
    if r.returncode: print(s["id"], "DEMO FAILS ON UNCHANGED TREE", r.stdout, r.stderr); return
    for fn, a, b in s["edits"]:
        p = os.path.join(T, fn); t = open(p).read()
        assert t.count(a) == 1, (s["id"], fn, t.count(a), a)
        open(p, "w").write(t.replace(a, b))
    b = build()
    if b.returncode: print(s["id"], "DOES NOT BUILD", b.stderr); return
    t = sh("go test -vet=off -count=1 ./...", T)
    if t.returncode: print(s["id"], "TESTS FAIL", t.stdout[-1500:]); return
    r = sh("sh %s/demo.sh" % stage, T)
    if r.returncode == 0: print(s["id"], "DEMO PASSES ON CHANGED TREE", r.stdout); return
    # the removed lines must be original ones
    diff = sh("git diff", T).stdout
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(stage, d)
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what"]), open(d + "/meta.json", "w"), indent=1)
    print(s["id"], "planted"); return True
def run(ids):
    for i in ids:
        meta = json.load(open(os.path.join(H, "seeded", i, "meta.json")))
        fresh()
        r = sh("git apply %s" % os.path.join(H, "seeded", i, "patch.diff"), T)
        if r.returncode: print(i, "PATCH DOES NOT APPLY", r.stderr); continue
        r = subprocess.run(["python3", "check.py", meta["property"]], cwd=H, env=dict(os.environ, OCT_REPO=T, VERIF_TIER="quick", VERIF_SEED="1"), capture_output=True, text=True)
        v = r.stdout.count("VIOLATION property=" + meta["property"])
        print(i, meta["property"], "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode, r.stdout.strip().split("\n")[-1] if r.stdout.strip() else r.stderr[-500:], flush=True)
if __name__ == "__main__":
    if sys.argv[1] == "--run":
        run(sys.argv[2:] or sorted(os.listdir(os.path.join(H, "seeded"))))
    else:
        for s in runpy.run_path(sys.argv[1])["SEEDS"]:
            if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
            if plant(s) and True: run([s["id"]])
