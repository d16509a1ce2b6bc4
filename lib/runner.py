"""Driver of all checks: scenarios -> real tool -> recorded sessions -> TLC -> verdict and evidence."""
import hashlib, importlib, json, multiprocessing, os, random, shutil, sys, tempfile, time, traceback
import core, projections

HERE = core.HERE
KNOWN = os.path.join(HERE, "known_findings.txt")


def load_known(prop):
    """known findings of prop: {case id: [clause...]} from lines `known: property=P case=ID clauses=a,b :: text`"""
    out = {}
    if not os.path.exists(KNOWN): return out
    for line in open(KNOWN, encoding="utf-8"):
        if not line.startswith("known: "): continue
        head, _, text = line[7:].partition(" :: ")
        kv = dict(x.split("=", 1) for x in head.split())
        if kv["property"] == prop: out[kv["case"]] = dict(clauses=kv["clauses"].replace("+", " ").split(","), text=text.strip())
    return out


def one(job):
    prop, kind, arg, seed, tier, octbin = job
    try:
        mod = importlib.import_module("props." + prop.lower())
        if kind == "fixed": sid, script = arg
        else:
            sid = "%s-%d-%d" % (kind, seed, arg)
            rng = random.Random("%s/%s/%s/%s" % (prop, kind, seed, arg))
            script = mod.build(rng, arg, tier)
        script["prop"] = prop
        return dict(id=sid, script=script, events=core.run_script(octbin, script, projections.project))
    except Exception:
        return dict(id="error", error=traceback.format_exc(), arg=repr(arg)[:300])


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="octcheck.")
    os.environ["OCT_SCRATCH"] = scratch
    try:
        return check(prop, tier, seed, argv, scratch, t0)
    except core.CheckError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("CHECK-ERROR property=%s" % prop)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(prop, tier, seed, argv, scratch, t0):
    sys.path.insert(0, HERE)
    mod = importlib.import_module("props." + prop.lower())
    octbin = core.build(scratch)
    known = load_known(prop)
    models, jobs = [], []
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f: r = json.load(f)
        jobs.append((prop, "fixed", (r["id"], r["script"]), seed, tier, octbin))
    else:
        # exhaustive models of the design, which also enumerate cases for the real tool
        done = {}
        for m in getattr(mod, "MODELS", []):
            mr = run_model(m, tier, scratch, done)
            if mr not in models: models.append(mr)
            for script in m.get("replay", lambda c, t: [])(mr["cases"], tier):
                jobs.append((prop, "fixed", ("%s-%d" % (mr["cfg"][:-4], len(jobs)), script), seed, tier, octbin))
        for sid, script in getattr(mod, "fixed", lambda: [])():
            jobs.append((prop, "fixed", (sid, script), seed, tier, octbin))
        n = int(os.environ.get("OCT_COUNT") or mod.COUNT[tier])
        jobs += [(prop, "gen", i, seed, tier, octbin) for i in range(n)]
    with multiprocessing.Pool(8) as pool:
        sessions = pool.map(one, jobs, chunksize=4)
    errs = [s for s in sessions if "error" in s]
    if errs: raise core.CheckError("%d scenarios could not be built:\n%s\n%s" % (len(errs), errs[0]["arg"], errs[0]["error"]))
    t1 = time.time()
    rej, stats = core.validate(sessions, scratch, only=getattr(mod, "ONLY", ()), skip=getattr(mod, "SKIP", ()))
    byid = {s["id"]: s for s in sessions}
    violations = 0
    outdir = os.path.join(HERE, "out", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    for r in rej:
        s = byid[r["session"]]
        clauses = sorted({b[0] for b in r["bad"]})
        if r["session"] in known:
            k = known[r["session"]]
            if all(any(c.startswith(x) for x in k["clauses"]) for c in clauses):
                print("KNOWN-FINDING: property=%s %s (case %s)" % (prop, k["text"], r["session"]))
                continue
        violations += 1
        if violations <= 20:
            os.makedirs(outdir, exist_ok=True)
            fn = os.path.join(outdir, r["session"].replace("/", "_") + ".json")
            with open(fn, "w") as f:
                json.dump(dict(id=r["session"], script=s["script"], event=r["event"], bad=r["bad"], recorded=s["events"][r["event"] - 1]), f, indent=1, ensure_ascii=False)
            for b in r["bad"][:6]: print("  %s event %d: %s" % (r["session"], r["event"], " | ".join(map(str, b))[:400]))
            print("VIOLATION property=%s replay=%s" % (prop, fn))
    runs = sum(1 for s in sessions for e in s["events"] if e["op"] == "run")
    okruns = sum(1 for s in sessions for e in s["events"] if e["op"] == "run" and e["rc"] == "ok")
    distinct = len({hashlib.sha256(json.dumps(s["events"], sort_keys=True).encode()).hexdigest() for s in sessions})
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(
                  states=stats["states"] + sum(m["distinct"] for m in models),
                  transitions=stats["transitions"] + sum(m["generated"] for m in models),
                  traces_validated_against_impl=len(sessions), distinct_traces=distinct,
                  runs_of_the_tool=runs, runs_that_succeeded=okruns,
                  design_models=[dict(module=m["module"], constants=m["cfg"], distinct_states=m["distinct"], generated=m["generated"], cases_emitted=len(m["cases"])) for m in models],
                  rule=getattr(mod, "RULE", ""),
                  samples=[dict(id=s["id"], steps=[dict(argv=x.get("argv"), file=x.get("put")) if "run" in x or "put" in x else x for x in s["script"]["steps"]][:8])
                           for s in sessions[:3]]),
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=violations)
    if "--replay" not in argv:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1, ensure_ascii=False)
    print("%s %s seed=%d: %d sessions, %d runs (%d ok), %d+%d states, %d violations, run %.1fs total %.1fs" % (
        prop, tier, seed, len(sessions), runs, okruns, stats["states"], sum(m["distinct"] for m in models), violations, t1 - t0, time.time() - t0))
    return 1 if violations else 0


def run_model(m, tier, scratch, done):
    """an exhaustive TLC run of a design model; a violated invariant there is an error of the specification"""
    cfg = m["cfg"][tier] if isinstance(m["cfg"], dict) else m["cfg"]
    if (m["module"], cfg) in done: return done[m["module"], cfg]
    r = core.tlc(m["module"] + ".tla", cfg, {}, scratch, extra=("-deadlock",))
    if r["rc"] != 0 or r["left"] != 0:
        raise core.CheckError("design model %s (%s) fails:\n%s" % (m["module"], cfg, r["out"][-3000:]))
    done[m["module"], cfg] = dict(module=m["module"], cfg=cfg, distinct=r["distinct"], generated=r["generated"], cases=sorted(core.printed(r["out"], "CASE"), key=lambda c: json.dumps(c, sort_keys=True)))   # TLC prints in any order
    return done[m["module"], cfg]
