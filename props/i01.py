"""Octopus v1 files."""
import copy, json
from octgen import Gen, from_octopus
from core import run
import models
COUNT = dict(quick=2100, thorough=24000)
RULE = "random v1 schemas: every v1 type in its spellings, v2-only types, rejected types, all attributes and references"
V1 = ["string", "varchar", "char", "int", "integer", "smallint", "bigint", "long", "datetime", "bool", "boolean", "number", "double",
      "decimal", "float", "text", "date", "time", "blob"]
PASS = ["mediumint", "tinyint", "longtext", "json", "varbinary", "timestamp", "int8", "tinyblob", "year", "real"]
BAD = ["foo", "enum", "set", "varchar2", "datetime2", ""]


def spell(t, rng):
    x = rng.random()
    return t.upper() if x < 0.15 else t.capitalize() if x < 0.25 else t


def document(s, rng, bad):
    doc = dict(tables=[])
    def keep(d, k, v):
        if v or rng.random() < 0.05: d[k] = v
    for k in ("author", "name", "version"): keep(doc, k, s[k])
    for t in s["tables"]:
        d = dict(name=t["name"], columns=[])
        for k in ("desc", "group", "className"): keep(d, k, t[k])
        for c in t["columns"]:
            e = dict(name=c["name"], type=c["type"])
            keep(e, "description", c["desc"])
            for k in ("size", "scale", "notnull", "pk", "unique", "autoinc", "default"): keep(e, k, c[k])
            if c["ref"]: e["ref"] = {k: c["ref"][0][k] for k in ("table", "column")}
            if rng.random() < 0.3:
                ks = list(e); rng.shuffle(ks); e = {k: e[k] for k in ks}
            d["columns"].append(e)
        doc["tables"].append(d)
    if rng.random() < 0.3: rng.shuffle(doc["tables"])
    return doc


def abstract(doc):
    """v1 document -> record, by renaming the one member that is called otherwise in v2"""
    d = copy.deepcopy(doc)
    for t in d["tables"]:
        for c in t["columns"]:
            if "description" in c: c["desc"] = c.pop("description")
    return from_octopus(d)


def build(rng, i, tier):
    g = Gen(rng, types=["varchar", "int32", "int64", "datetime", "boolean", "decimal", "float", "text16", "date", "time", "blob16"], p_index=0, blanks=True, lines=True)
    s = g.schema()
    bad = rng.random() < 0.06
    cols = [c for t in s["tables"] for c in t["columns"]]
    v2 = {"varchar": V1[:3], "int32": V1[3:6], "int64": V1[6:8], "datetime": ["datetime"], "boolean": ["bool", "boolean"],
          "decimal": ["number", "double", "decimal"], "float": ["float"], "text16": ["text"], "date": ["date"], "time": ["time"], "blob16": ["blob"]}
    for c in cols:
        c["type"] = spell(rng.choice(v2[c["type"]]), rng)
        if rng.random() < 0.08: c["type"] = spell(rng.choice(PASS), rng)
        if rng.random() < 0.04: c["autoinc"] = True
        if rng.random() < 0.1: c["size"] = rng.choice([1, 7, 65535])
        if rng.random() < 0.05: c["scale"] = rng.choice([1, 3])
    if bad:
        c = rng.choice(cols)
        if rng.random() < 0.2: c["name"] = ""
        else: c["type"] = spell(rng.choice(BAD), rng)
    doc = document(s, rng, bad)
    val, text, kind = abstract(doc), json.dumps(doc, indent=rng.choice([None, 2]), ensure_ascii=rng.random() < 0.5), "ojson"
    if rng.random() < 0.02: text, val, kind = rng.choice([text[:-1], "", "[]", "hello", text.replace("{", "[", 1)]), "", "malformed"
    name = rng.choice(["in.ojson", "in.json"])
    steps = [dict(put=name, kind=kind, val=val, text=text)]
    if rng.random() < 0.3: steps.append(dict(put="out.json", kind="other", val="", text="old"))
    return dict(steps=steps + [run("import-ojson", [name], "out.json", {}, rng)])


def enumerated(c, n):
    doc = document(models.around(c, n), __import__("random").Random(n), False)
    return dict(steps=[dict(put="in.json", kind="ojson", val=abstract(doc), text=json.dumps(doc)), run("import-ojson", ["in.json"], "out.json")])


MODELS = [models.valid(enumerated, lambda c: not c["values"])]


def worded(s, n):
    doc = document(s, __import__("random").Random(n), False)
    return [dict(steps=[dict(put="in.json", kind="ojson", val=abstract(doc), text=json.dumps(doc, ensure_ascii=n % 2 == 0)), run("import-ojson", ["in.json"], "out.json")])]


MODELS.append(models.texts(worded, members=False))
