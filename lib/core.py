"""Running the real tool, recording sessions and validating them with TLC."""
import base64, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, traceback, zipfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
REPO = os.environ.get("OCT_REPO", "/repo")
import cmds

JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """the check itself could not do its work: exit status 2, never a violation"""


def build(scratch):
    """build oct from the current tree of /repo into scratch; returns the path of the binary"""
    out = os.path.join(scratch, "oct")
    env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
    r = subprocess.run(["go", "build", "-o", out, "."], cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode: raise CheckError("go build failed:\n" + r.stdout + r.stderr)
    return out


BASE_ENV = {k: v for k, v in os.environ.items() if not k.startswith("OCTOPUS_") and k in ("PATH", "HOME", "LANG", "LC_ALL", "TMPDIR")}


def snapshot(root):
    """relative path -> digest for every file and directory below root"""
    out = {}
    for d, ds, fs in os.walk(root):
        rel = os.path.relpath(d, root)
        for x in ds: out[os.path.normpath(os.path.join(rel, x)) + "/"] = "dir"
        for x in fs:
            p = os.path.join(d, x)
            if os.path.islink(p): out[os.path.normpath(os.path.join(rel, x))] = "-> " + os.readlink(p); continue
            with open(p, "rb") as f: out[os.path.normpath(os.path.join(rel, x))] = hashlib.sha256(f.read()).hexdigest()
    return out


def parts(path):
    """digest of the parts of a workbook (the order of the parts in the archive is up to the archiver)"""
    try:
        with zipfile.ZipFile(path) as z:
            return hashlib.sha256(json.dumps(sorted((n, hashlib.sha256(z.read(n)).hexdigest()) for n in z.namelist())).encode()).hexdigest()
    except zipfile.BadZipFile: return "not a zip file"


def within(path, out):
    path = path.rstrip("/")
    out = os.path.normpath(out)
    return path == out or path.startswith(out + "/")


def run_script(oct_bin, script, proj):
    """execute one scripted session in a directory of its own; returns the recorded events"""
    d = tempfile.mkdtemp(prefix="octs.", dir=os.environ.get("OCT_SCRATCH"))
    events = []
    try:
        for st in script["steps"]:
            if "put" in st:
                p = os.path.join(d, st["put"])
                os.makedirs(os.path.dirname(p), exist_ok=True)
                data = base64.b64decode(st["b64"]) if "b64" in st else st["text"].encode()
                with open(p, "wb") as f: f.write(data)
                events.append(dict(op="put", file=st["put"], content=dict(kind=st["kind"], val=st["val"], dig=hashlib.sha256(data).hexdigest())))
            elif "link" in st:
                p = os.path.join(d, st["link"])
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if os.path.lexists(p): os.remove(p)
                os.symlink(st["to"], p)
            elif "mkdir" in st:
                os.makedirs(os.path.join(d, st["mkdir"]), exist_ok=True)
            elif "rm" in st:
                p = os.path.join(d, st["rm"])
                if os.path.isdir(p): shutil.rmtree(p)
                elif os.path.exists(p): os.remove(p)
                events.append(dict(op="rm", file=st["rm"]))
            else:
                events.append(run_step(oct_bin, d, st, proj))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return events


def run_step(oct_bin, d, st, proj):
    before = snapshot(d)
    cmd, out = st["run"], st["out"]
    try:
        r = subprocess.run([oct_bin] + st["argv"], cwd=d, env=dict(BASE_ENV, **st.get("env", {})), stdin=subprocess.DEVNULL,
                           capture_output=True, timeout=60)
        rc, msg = r.returncode, (r.stderr + r.stdout).decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        rc, msg = -1, "timeout"
    after = snapshot(d)
    diff = {p for p in set(before) | set(after) if before.get(p) != after.get(p)}
    mine = {p for p in diff if within(p, out) or (p.endswith("/") and p not in before and within(out, p[:-1]))}   # with the directories that lead to it
    obs = dict(kind="none", val="", dig="", err="")
    if rc == 0:
        files = sorted(p for p in after if within(p, out) and not p.endswith("/"))
        if out.endswith(".xlsx") and out in after and not after[out].startswith("-> "): after[out] = parts(os.path.join(d, out))
        obs["dig"] = hashlib.sha256(json.dumps([[os.path.relpath(p, os.path.normpath(out)), after[p]] for p in files]).encode()).hexdigest()
        if files == [] and not os.path.isdir(os.path.join(d, out)): obs.update(kind="missing", err="no output file")
        elif any(after[p].startswith("-> ") for p in files): obs.update(kind="device", err="output went to a device")
        else:
            try:
                kind, val = proj(cmd, os.path.join(d, out), st)
                obs.update(kind=kind, val=val)
            except Exception as e:
                obs.update(kind="malformed", err="%s: %s" % (type(e).__name__, e))
                if os.environ.get("OCT_DEBUG"): traceback.print_exc()
    return dict(op="run", cmd=cmd, ins=st["ins"], out=out, opts=st["opts"], writable=st.get("writable", True), valid=st.get("valid", True),
                rc="ok" if rc == 0 else "fail", crashed=rc < 0 or "goroutine 1 [" in msg, changed=sorted(diff - mine), outchanged=bool(mine) and not st.get("anychange", False), said=bool(msg.strip()),
                msg=clean_msg(msg), obs=obs, judge=st.get("judge", True), remember=st.get("remember", False))


def clean_msg(m):
    m = re.sub(r"^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d ", "", m.strip(), flags=re.M)
    return m.split("\n\ngoroutine")[0][:300]


# ---- building scripts
def put_schema(name, s, rng=None, shuffle=False, doc=None):
    import octgen
    doc = octgen.to_octopus(s, rng, shuffle) if doc is None else doc
    return dict(put=name, kind="schema", val=octgen.from_octopus(doc), text=octgen.dump(doc, rng))


def run(cmd, ins, out, opts=None, rng=None, **kw):
    full = cmds.full_opts(cmd, opts or {})
    argv, env = cmds.invocation(cmd, ins, out, {k: v for k, v in full.items() if k != "none"}, rng)
    for k, o in cmds.COMMANDS[cmd]["opts"].items():
        pass
    return dict(run=cmd, ins=ins, out=out, opts=full, argv=argv, env=env, **kw)


# ---- TLC
def tlc(module, cfg, env, scratch, workers=8, heap="6g", extra=(), timeout=800):
    meta = tempfile.mkdtemp(prefix="tlc.", dir=scratch)
    e = dict(os.environ, **env)
    e["JAVA_TOOL_OPTIONS"] = "-Dfile.encoding=UTF-8 -Dstdout.encoding=UTF-8 -Dsun.stdout.encoding=UTF-8"
    a = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JAVA_CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
         "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    try:
        r = subprocess.run(a, cwd=os.path.join(HERE, "spec"), env=e, capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout.decode("utf-8", "replace")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue", out)
    res = dict(rc=r.returncode, out=out, generated=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0,
               left=int(m.group(3)) if m else -1)
    return res


def printed(out, tag):
    """JSON values the specification printed after `tag `"""
    got = []
    for line in out.split("\n"):
        line = line.strip()
        if line.startswith('"' + tag + " "):
            s = line[1:-1]
            s = re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t", "r": "\r"}.get(m.group(1), m.group(1)), s)
            got.append(json.loads(s[len(tag) + 1:]))
    return got


def validate(sessions, scratch, chunk_events=6000, only=(), skip=()):
    """sessions: [{id, events}] -> (rejections, stats).  Every session must be accounted for."""
    rej, states, trans = [], 0, 0
    chunks, cur, n = [], [], 0
    for s in sessions:
        cur.append(s); n += len(s["events"])
        if n >= chunk_events: chunks.append(cur); cur, n = [], 0
    if cur: chunks.append(cur)
    for ch in chunks:
        rs, st = validate_chunk(ch, scratch, only, skip)
        rej += rs; states += st[0]; trans += st[1]
        if sum(1 for x in rej if x["bad"][0][0] == "not-explained") >= 6: break
    return rej, dict(states=states, transitions=trans)


def validate_chunk(ch, scratch, only, skip):
    """Sessions at which the specification cannot even be evaluated (the artefact speaks about things that are not
    there, say) are rejected as well, one by one; after six of them the rest of the chunk is left alone."""
    odd = []
    for _ in range(6):
        fn = tempfile.mktemp(prefix="trace.", suffix=".ndjson", dir=scratch)
        with open(fn, "w") as f:
            for s in ch: f.write(json.dumps(dict(id=s["id"], events=s["events"], only=list(only), skip=list(skip)), ensure_ascii=False) + "\n")
        r = tlc("OctTrace.tla", "OctTrace.cfg", {"OCT_TRACE": fn}, scratch)
        rs = printed(r["out"], "REJECT")
        if r["rc"] == 0: break
        where = re.findall(r"^/\\ (sid|l) = (\d+)$", r["out"], re.M)
        at = [int(v) for k, v in where if k == "sid"]
        if r["rc"] != 75 or not at or "Error: The error occurred when TLC was evaluating the nested" not in r["out"]:
            keep = os.path.join(HERE, "out", "tlc-error.ndjson")
            os.makedirs(os.path.dirname(keep), exist_ok=True); shutil.copy(fn, keep)
            raise CheckError("TLC could not evaluate the trace (%s):\n%s" % (keep, r["out"][-3000:]))
        s, ev = ch[at[-1] - 1], [int(v) for k, v in where if k == "l"][-1]
        why = re.search(r"The exception was a [\w.]+\s*:? ?(.*?)\nError: The behavior", r["out"], re.S)
        why = " ".join(why.group(1).split())[:200] if why else ""
        odd.append(dict(session=s["id"], event=ev, bad=[["not-explained", s["events"][ev - 1].get("cmd", ""), why, ""]]))
        ch = [x for x in ch if x is not s]
        os.remove(fn)
    else: return rs + odd, (r["distinct"], r["generated"])
    byid = {x["session"]: x for x in rs}
    want = 0
    for s in ch:
        want += 1 + (byid[s["id"]]["event"] if s["id"] in byid else len(s["events"]))
    if r["distinct"] != want or r["left"] != 0:
        raise CheckError("trace validation visited %d states, expected %d" % (r["distinct"], want))
    os.remove(fn)
    return rs + odd, (r["distinct"], r["generated"] - len(ch))
