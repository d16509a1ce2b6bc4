from octgen import Gen, CANON, col, table, schema as mk
from core import put_schema, run
import models
COUNT = dict(quick=1800, thorough=21000)
RULE = "random schemas (no enum or set columns, no commas in default values, at most one of no group and Common); export, import, export, import"
ASSUMPTIONS = ["group names are distinct legal sheet names other than Meta", "default and ON UPDATE values contain no comma"]
TYPES = [t for t in CANON if t not in ("enum", "set")]
GROUPS = ["", "core", "corex", "shop", "user data", "A-1"]


def schema(rng):
    g = Gen(rng, types=TYPES, groups=GROUPS if rng.random() < 0.9 else ["Common", "core"], commas=False, p_group=1.0 if rng.random() < 0.3 else 0.6)
    s = g.schema()
    if any(t["group"] == "Common" for t in s["tables"]):
        for t in s["tables"]: t["group"] = t["group"] or "core"
    for t in s["tables"]:
        if rng.random() < 0.2: t["desc"] = g.text() + ", x"
        for c in t["columns"]:
            c["default"] = c["default"].strip(); c["onupdate"] = c["onupdate"].strip()
    return s


def build(rng, i, tier):
    s = schema(rng)
    o1, o2 = ({"nullcol": True} if rng.random() < 0.5 else {}), ({"nullcol": True} if rng.random() < 0.5 else {})
    return dict(steps=[put_schema("a.json", s, rng, rng.random() < 0.3), run("export-xlsx", ["a.json"], "b.xlsx", o1, rng),
                       run("import-xlsx", ["b.xlsx"], "c.json", {}, rng), run("export-xlsx", ["c.json"], "d.xlsx", o2, rng),
                       run("import-xlsx", ["d.xlsx"], "e.json", {}, rng)])


def fixed():
    def one(*groups):
        s = mk([table("t%d" % k, [col("id", "int64")], group=g) for k, g in enumerate(groups)], version="1")
        return dict(steps=[put_schema("a.json", s), run("export-xlsx", ["a.json"], "b.xlsx")])
    return [("group-meta", one("Meta")), ("group-common-twice", one("", "Common"))]


def enumerated(s, n):
    return [dict(steps=[put_schema("a.json", s), run("export-xlsx", ["a.json"], "b.xlsx", dict(nullcol=n % 2 == 0)), run("import-xlsx", ["b.xlsx"], "c.json"),
                        run("export-xlsx", ["c.json"], "d.xlsx", dict(nullcol=n % 3 == 0)), run("import-xlsx", ["d.xlsx"], "e.json")])]


MODELS = [models.attr(enumerated, lambda c: not c["values"] and "," not in c["default"])] + models.keys(enumerated)
MODELS.append(models.texts(enumerated, lambda s: s.strip() == s and "," not in s, members=False))
MODELS.append(models.refs(enumerated))
MODELS += models.life(lambda h: any(s.get("cmd") == "import-xlsx" for s in h), chain=True)
