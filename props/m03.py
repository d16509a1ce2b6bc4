from octgen import Gen, CANON
from core import put_schema, run
import models
COUNT = dict(quick=3000, thorough=36000)
RULE = "random schemas representable in the importable dialect; export, import, export, import, export"
TYPES = [t for t in CANON if t not in ("geometry", "point")]
FNS = {"datetime": ["CURRENT_TIMESTAMP", "NOW"]}


def build(rng, i, tier):
    g = Gen(rng, types=TYPES, fns=FNS, specials=False, blanks=True, lines=True, p_noname=0.1)
    s = g.schema()
    for t in s["tables"]:
        for c in t["columns"]:
            if c["type"] in ("varchar", "varbinary") and c["size"] == 0: c["size"] = 20   # MySQL needs a length here
    o1, o2, io = {}, {}, {}
    if rng.random() < 0.2: o1["groups"] = ",".join(rng.sample(["common", "core", "corex", "shop", "Core"], 2))
    if rng.random() < 0.5: o1["suffix"] = o2["suffix"] = rng.choice(["_uq", "_UK"])
    if rng.random() < 0.5: io["author"] = "foo"
    if rng.random() < 0.5: io["version"] = "1.2"
    def imp(i, o):
        st = run("import-mysql", [i], o, io, rng); st["opts"] = dict(st["opts"], excludes=[]); return st
    return dict(steps=[put_schema("a.json", s, rng), run("export-mysql", ["a.json"], "b.sql", o1, rng), imp("b.sql", "c.json"),
                       run("export-mysql", ["c.json"], "d.sql", o2, rng), imp("d.sql", "e.json"), run("export-mysql", ["e.json"], "f.sql", o2, rng)])


def enumerated(s, n):
    o = dict(suffix="_uq") if n % 2 else {}
    def imp(i, o):
        st = run("import-mysql", [i], o); st["opts"] = dict(st["opts"], excludes=[]); return st
    return [dict(steps=[put_schema("a.json", s), run("export-mysql", ["a.json"], "b.sql", o), imp("b.sql", "c.json"), run("export-mysql", ["c.json"], "d.sql", o),
                        imp("d.sql", "e.json"), run("export-mysql", ["e.json"], "f.sql", o)])]


MODELS = [models.attr(enumerated, lambda c: c["type"] in TYPES and not (c["type"] == "varbinary" and c["size"] == 0) and (not c["default"].startswith("fn::") or c["type"] == "datetime"))] + models.keys(enumerated)
MODELS.append(models.texts(enumerated))
MODELS += models.life(lambda h: any(s.get("cmd") == "import-mysql" for s in h), chain=True)
