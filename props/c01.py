import inputs
from octgen import SYN, col
from core import run, put_schema
import models
COUNT = dict(quick=1700, thorough=22000)
RULE = "random schemas, half of them with one or several defects at any position (either side of a diff), auto-increment on other types, every spelling of every type x every command that reads a schema"
BADTYPES = ["foo", "varchar2", "int128", "", "integer8", "boolea", "text64", "varchar(20)", "int ", "dec", "bool", "uuid", "datetime2", "blob64", "clob", "character", "serial"]


def defect(rng, s):
    c = rng.choice([c for t in s["tables"] for c in t["columns"]])
    k = rng.random()
    if k < 0.15: c["name"] = ""
    elif k < 0.55: c["type"] = rng.choice(BADTYPES)
    elif k < 0.75: c["type"] = "enum"; c["values"] = []
    else: c["type"] = "set"; c["values"] = [] if rng.random() < 0.4 else ["m%d" % n for n in range(rng.choice([65, 65, 66, 100]))]


def harmless(cmd, rng, s):
    """what looks odd but is allowed"""
    for t in s["tables"]:
        for c in t["columns"]:
            x = rng.random()
            if x < 0.08 and c["type"] not in ("int8", "int16", "int24", "int32", "int64"): c["autoinc"] = True
            elif x < 0.11 and "enum" in inputs.gen_options(cmd).get("types", ["enum"]) and not (c["pk"] or c["unique"] or c["default"] or c["onupdate"] or c["autoinc"]):
                c["type"] = "set"; c["size"] = c["scale"] = 0; c["values"] = ["m%d" % n for n in range(rng.choice([1, 63, 64]))]


def build(rng, i, tier):
    cmd = inputs.READERS[i % len(inputs.READERS)]
    o = inputs.options(cmd, rng)
    ss = inputs.schemas(cmd, rng, o)
    if cmd.startswith("diff") and rng.random() < 0.5: ss[1] = ss[0]
    for s in (ss if len(ss) == 1 else []): harmless(cmd, rng, s)
    if len(ss) == 2:                # the same flags on both sides
        for t in ss[0]["tables"] + ss[1]["tables"]:
            for c in t["columns"]:
                if c["type"] in ("varchar", "datetime", "boolean") and "o" in c["name"] and len(c["name"]) % 3 == 0: c["autoinc"] = True
    steps = []
    names = ["a.json", "b.json"][:len(ss)]
    import copy
    ss = copy.deepcopy(ss)
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            s = rng.choice(ss)
            if any(t["columns"] for t in s["tables"]): defect(rng, s)
    for n, s in zip(names, ss): steps.append(put_schema(n, s, rng, rng.random() < 0.3))
    if cmd in inputs.DIRS: steps.append(dict(mkdir=inputs.OUT[cmd]))
    steps.append(run(cmd, names, inputs.OUT[cmd], o, rng))
    return dict(steps=steps)


def enumerated(c, n):
    """one column of the model, read by one command after another"""
    cmd = inputs.READERS[n % len(inputs.READERS)]
    s = models.around(c, n)
    names = ["a.json", "b.json"] if cmd.startswith("diff") else ["a.json"]
    ss = [s] if len(names) == 1 else [s, models.around(col("code", "int32"), n)][:: 1 if n % 2 else -1]
    out = inputs.OUT[cmd]
    steps = [put_schema(x, y) for x, y in zip(names, ss)] + ([dict(mkdir=out)] if cmd in inputs.DIRS else [])
    return dict(steps=steps + [run(cmd, names, out, {}, judge=False, okind=inputs.OKIND(cmd))])


MODELS = [models.valid(enumerated)]
