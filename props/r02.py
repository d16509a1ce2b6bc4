import base64, copy, json
import inputs, proj_xlsx
from props import i01
from octgen import col, table, schema as mk
from core import run, put_schema
from cmds import COMMANDS
COUNT = dict(quick=1330, thorough=15000)
RULE = "every command x every kind of failing invocation (missing, malformed, empty, misnamed, invalid or unreadable input, unusable output, full device, missing or unknown option), over old outputs, then a good run over an old output, then a failing run over the good output"
ASSUMPTIONS = ["write failures are those of /dev/full and of paths that cannot be opened; a device that fills up half way through a file is not simulated"]
TEXT = {"import-mysql": "CREATE TABLE t (a foo bar;", "import-ojson": "{\"tables\": [", "import-staruml": "{", "import-xlsx": "not a workbook"}


def old(out, cmd, rng):
    if cmd in inputs.DIRS: return [dict(mkdir=out)]
    return [dict(put=out, kind="other", val="", text="previous output\n" * rng.choice([1, 3000]))] if rng.random() < 0.8 else []


def spoil(cmd, p, rng):
    """turns the valid input p of an importer into one whose schema is not valid"""
    ty = rng.choice(["foo", "ENUM", "set", "int128", "varchar2(20)"])
    if cmd == "import-ojson":
        doc = json.loads(p["text"]); cols = [c for t in doc["tables"] for c in t["columns"]]
        if not cols: return False
        c = rng.choice(cols)
        if rng.random() < 0.3: c["name"] = ""
        else: c["type"] = ty
        p["text"] = json.dumps(doc); p["val"] = i01.abstract(doc)
    elif cmd == "import-staruml":
        doc = json.loads(p["text"]); cols = []
        def walk(e):
            if e.get("_type") == "ERDColumn": cols.append(e)
            for x in e.get("ownedElements", []) + e.get("columns", []): walk(x)
        walk(doc)
        if not cols: return False
        c = rng.choice(cols)
        a = [a for m in p["val"]["models"] for e in m for a in e["columns"] if a["id"] == c["_id"]][0]
        if rng.random() < 0.4: c["referenceTo"] = {"$ref": "AAAAAAFgone="}; a["refto"] = "AAAAAAFgone="
        else: c["type"] = a["type"] = ty
        p["text"] = json.dumps(doc)
    else:
        rows = [r for sh in p["val"] if sh["name"] != "Meta" for r in sh["rows"][1:] if len(r) > 2 and r[2] != "table" and r[2]]
        if not rows: return False
        rng.choice(rows)[2] = ty
        p["b64"] = base64.b64encode(proj_xlsx.write(p["val"], rng)).decode()
    return True


def fail(cmd, rng, puts, ins, o, out):
    """steps of one failing invocation"""
    modes = ["output-below-file", "device", "unknown-flag"]
    if cmd != "init": modes += ["missing-input", "missing-input", "malformed", "empty", "directory", "no-input-option", "no-output-option"]
    if cmd in inputs.READERS: modes += ["extension", "invalid", "invalid", "json-type"]
    if cmd not in inputs.DIRS + ("generate-gorm", "generate-plantuml", "generate-sqlalchemy"): modes += ["output-is-directory"]
    if cmd not in inputs.DIRS + ("generate-sqlalchemy",): modes += ["output-directory-missing"]
    if cmd == "generate-pb": modes += ["bad-number"]
    if "prefix" in COMMANDS[cmd]["opts"]: modes += ["bad-map"]
    if cmd in ("import-ojson", "import-staruml", "import-xlsx"): modes += ["bad-content"] * 5
    m = rng.choice(modes)
    j = rng.randrange(len(ins)) if ins else 0
    def with_input(f): return [f if k == j else x for k, x in enumerate(ins)]
    ext = ins[j].rpartition(".")[2] if ins else ""
    if m == "missing-input": return [run(cmd, with_input("missing." + ext), out, o, rng)]
    if m in ("malformed", "empty", "json-type"):
        text = dict(malformed=TEXT.get(cmd, rng.choice(["{\"tables\": [", "tables: []", "[1,2"])), empty="").get(m, '{"tables": [{"name": "t", "columns": [{"name": "id", "type": 5}]}]}')
        if m == "empty" and cmd == "import-mysql": text = "hello"
        return [dict(put="bad." + ext, kind="malformed", val="", text=text), run(cmd, with_input("bad." + ext), out, o, rng)]
    if m == "bad-content":
        p = copy.deepcopy([p for p in puts if p["put"] == ins[j]][0])
        if not spoil(cmd, p, rng): return fail(cmd, rng, puts, ins, o, out)
        p["put"] = "bad." + ext
        return [p, run(cmd, with_input("bad." + ext), out, o, rng)]
    if m == "directory": return [dict(mkdir="dir." + ext), run(cmd, with_input("dir." + ext), out, o, rng)]
    if m == "extension":
        src = [p for p in puts if p["put"] == ins[j]][0]
        return [dict(src, put="schema.txt", kind="text"), run(cmd, with_input("schema.txt"), out, o, rng)]
    if m == "invalid":
        s = copy.deepcopy([p for p in puts if p["put"] == ins[j]][0]["val"])
        c = rng.choice([c for t in s["tables"] for c in t["columns"]] or [None])
        if c is None: return fail(cmd, rng, puts, ins, o, out)
        k = rng.random()
        if k < 0.2: c["name"] = ""
        elif k < 0.5: c["type"] = rng.choice(["foo", "int128", "varchar2", "boolea"])
        elif k < 0.75: c["type"] = "enum"; c["values"] = []
        else: c["type"] = "set"; c["values"] = [] if rng.random() < 0.5 else ["m%d" % n for n in range(65)]
        return [put_schema("bad.json", s), run(cmd, with_input("bad.json"), out, o, rng)]
    if m == "bad-map":
        k = rng.choice(["prefix", "annotation"]) if cmd == "generate-kt" else "prefix"
        v = dict(prefix=["core:C,S", "C,core:S", "core:C,", "core:C,,shop:S"], annotation=["core:@Foo(1,2)", "@Foo,core:@Bar", "core:@Foo,"])[k]
        return [dict(run(cmd, ins, out, dict(o, **{k: rng.choice(v)}), rng), valid=False)]
    if m in ("no-input-option", "no-output-option", "unknown-flag", "bad-number"):
        st = run(cmd, ins, out, o)
        if m == "unknown-flag": st["argv"] += ["--nosuchflag", "1"]
        elif m == "bad-number": st["argv"] += ["--relationTagStart", rng.choice(["abc", "1.5", ""])]
        else:
            flag = "--output" if m == "no-output-option" else rng.choice(["--from", "--to"]) if cmd.startswith("diff") else "--input"
            k = st["argv"].index(flag); del st["argv"][k:k + 2]
        return [dict(st, valid=False)]
    if m == "output-below-file": return [dict(put="plain", kind="other", val="", text="x"), run(cmd, ins, "plain/" + out, o, rng, writable=False)]
    if m == "output-is-directory": return [dict(mkdir="d/" + out), run(cmd, ins, "d/" + out, o, rng, writable=False)]
    if m == "output-directory-missing": return [run(cmd, ins, "no/such/" + out, o, rng, writable=False)]
    if m == "device":
        if cmd == "generate-kt" or cmd == "generate-sqlalchemy" and rng.random() < 0.5:      # one table, so that one file is all there is
            s = mk([table("user", [col("id", "int64", pk=True, notnull=True)], className="User")])
            f, o = ("User.kt", dict(package=rng.choice(["", "foo"]))) if cmd == "generate-kt" else ("user.py", {})
            if o.get("package"): f = "foo/" + f
            if cmd == "generate-kt" and rng.random() < 0.4:
                # the entity can be written, its repository cannot: only the exit status is judged
                o["reposPackage"] = "repos"
                return [put_schema("one.json", s), dict(link="full/repos/UserRepository.kt", to="/dev/full"), dict(run(cmd, ["one.json"], "full", o, rng, writable=False), anychange=True)]
            return [put_schema("one.json", s), dict(link="full/" + f, to="/dev/full"), run(cmd, ["one.json"], "full", o, rng, writable=False)]
        if cmd == "generate-graphql":
            f = "%s-%s.graphqls" % (puts[0]["val"]["name"], puts[0]["val"]["version"])
            return [dict(link="full/" + f, to="/dev/full"), run(cmd, ins, "full", o, rng, writable=False)]
        f = "full." + out.rpartition(".")[2]
        return [dict(link=f, to="/dev/full"), run(cmd, ins, f, o, rng, writable=False)]


def build(rng, i, tier):
    cmd = inputs.ALL[i % len(inputs.ALL)]
    puts, ins, o = inputs.case(cmd, rng)
    out = inputs.OUT[cmd]
    steps = list(puts) + [dict(put="bystander." + rng.choice(["json", "sql", "txt"]), kind="other", val="", text="{}")]
    steps += old(out, cmd, rng)
    for _ in range(rng.choice([1, 2, 3])): steps += fail(cmd, rng, puts, ins, o, out)
    steps.append(run(cmd, ins, out, o, rng))
    for _ in range(rng.choice([1, 2])): steps += fail(cmd, rng, puts, ins, o, out)
    return dict(steps=steps)
import models
MODELS = models.life()
