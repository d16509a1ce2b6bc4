import copy, random
import inputs
from octgen import to_octopus, SYN, col
from core import run, put_schema
import models
COUNT = dict(quick=1330, thorough=16000)
RULE = "random schemas in two to four spellings (type synonyms, letter case, table order, key order, explicit defaults, layout) through every command; files written by the tool are read back and written again"


def full(doc, rng):
    """explicit default values"""
    for t in doc["tables"]:
        for k, v in dict(desc="", group="", className="", indices=[]).items():
            if rng.random() < 0.4: t.setdefault(k, v)
        for c in t["columns"]:
            for k, v in dict(desc="", size=0, scale=0, notnull=False, pk=False, unique=False, autoinc=False, default="", onupdate="", values=[]).items():
                if rng.random() < 0.3: c.setdefault(k, v)
            if "ref" not in c and rng.random() < 0.2: c["ref"] = None
    for k in ("author", "name", "version"):
        if rng.random() < 0.4: doc.setdefault(k, "")
    if rng.random() < 0.3:
        ks = list(doc); rng.shuffle(ks); doc = {k: doc[k] for k in ks}
    return doc


def spelling(name, s, rng):
    doc = to_octopus(s, rng, True)
    return put_schema(name, s, rng, doc=full(doc, rng))


def build(rng, i, tier):
    cmds = inputs.READERS + ["init"] + list(inputs.IMPORTERS)
    cmd = cmds[i % len(cmds)]
    if cmd == "init" or cmd in inputs.IMPORTERS:
        puts, ins, o = inputs.case(cmd, rng)
        if cmd == "init" and rng.random() < 0.5:
            st = run(cmd, [], "db.json"); st["argv"] = ["init"]
        else: st = run(cmd, ins, rng.choice(["out.json", "schema.ojson"]) if cmd == "init" else "out.json", o, rng)
        return dict(steps=puts + [st, run("generate-plantuml", [st["out"]], "read.puml", {}, rng)])
    o = inputs.options(cmd, rng)
    ss = inputs.schemas(cmd, rng, o, **(dict(min_tables=13, max_tables=20, max_cols=2) if rng.random() < 0.06 else {}))
    steps = []
    out = inputs.OUT[cmd]
    stem, _, ext = out.partition(".")
    for k in range(rng.choice([2, 3, 4])):
        names = ["a%d.json" % k, "b%d.%s" % (k, rng.choice(["json", "ojson"]))][:len(ss)]
        steps += [spelling(n, s, rng) for n, s in zip(names, ss)] if k else [put_schema(n, s) for n, s in zip(names, ss)]
        f = stem + str(k) + ("." + ext if ext else "")
        if cmd in inputs.DIRS: steps.append(dict(mkdir=f))
        steps.append(run(cmd, names, f, o, rng, remember=True))
    return dict(steps=steps)


def enumerated(c, n):
    """one spelling of a type and the canonical one, read by one command after another"""
    cmd = inputs.READERS[n % len(inputs.READERS)]
    plain = dict(c, type=SYN.get(c["type"].lower(), c["type"].lower()))
    names, out = ["a%d.json", "b%d.json"][:2 if cmd.startswith("diff") else 1], inputs.OUT[cmd]
    stem, _, ext = out.partition(".")
    steps = []
    for k, x in enumerate((plain, c)):
        ss = [models.around(x, n), models.around(col("code", "int32"), n)]
        f = stem + str(k) + ("." + ext if ext else "")
        steps += [put_schema(m % k, s) for m, s in zip(names, ss)] + ([dict(mkdir=f)] if cmd in inputs.DIRS else [])
        steps.append(run(cmd, [m % k for m in names], f, {}, judge=False, remember=True, okind=inputs.OKIND(cmd)))
    return dict(steps=steps)


MODELS = [models.valid(enumerated, lambda c: c["name"])]
MODELS += models.life()
