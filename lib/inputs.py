"""Valid inputs, options and output names for every command."""
import importlib
from octgen import Gen, CANON
from codeopts import make, prefix_map, removes, models_distinct, links_ok
from evolve import pair
from core import put_schema
from cmds import COMMANDS

PB = ["char", "varchar", "text8", "text16", "text24", "text32", "int8", "int16", "int24", "int32", "int64", "decimal", "float", "double", "boolean", "datetime"]
OUT = {"init": "out.json", "import-mysql": "out.json", "import-ojson": "out.json", "import-staruml": "out.json", "import-xlsx": "out.json",
       "export-dbml": "out.dbml", "export-quickdbd": "out.txt", "export-mysql": "out.sql", "export-xlsx": "out.xlsx", "generate-gorm": "out.go",
       "generate-graphql": "out", "generate-kt": "out", "generate-liquibase": "out.yml", "generate-plantuml": "out.puml", "generate-pb": "out.proto",
       "generate-sqlalchemy": "out.py", "diff-flyway": "d.sql", "diff-liquibase": "d.yml", "diff-md": "d.md"}
DIRS = ("generate-graphql", "generate-kt")
IMPORTERS = {"import-mysql": "m02", "import-ojson": "i01", "import-staruml": "i02", "import-xlsx": "x02"}
OKIND = lambda cmd: "schema" if OUT[cmd] == "out.json" else "ddl" if cmd == "export-mysql" else "xlsx" if cmd == "export-xlsx" else cmd
READERS = [c for c in COMMANDS if COMMANDS[c]["ins"] and not c.startswith("import-")]
ALL = list(COMMANDS)


def options(cmd, rng):
    o = {}
    have = COMMANDS[cmd]["opts"]
    if "groups" in have and rng.random() < 0.3: o["groups"] = ",".join(rng.sample(["common", "core", "corex", "shop", "none"], rng.choice([1, 2, 3])))
    if "suffix" in have and rng.random() < 0.5: o["suffix"] = rng.choice(["_uq", "_UK"])
    if "comments" in have and rng.random() < 0.5: o["comments"] = True
    if "author" in have and cmd.startswith("diff") and rng.random() < 0.3: o["author"] = "foo"
    if "prefix" in have: o["prefix"] = prefix_map(rng)
    if "removePrefix" in have: o["removePrefix"] = removes(rng)
    for k, vs in dict(package=["", "foo", "foo.bar"], goPackage=["", "model"], idEntity=["", "IdEntity"], reposPackage=["", "foo.repos"],
                      relation=["", "VRelation"], annotation=["", "core:@Core,common:@Common;@Foo"], tagStart=["", "20", "-1"]).items():
        if k in have: o[k] = rng.choice(vs if not (cmd == "generate-gorm" and k == "package") else ["", "foo"])
    for k in ("pointer", "tagDecr", "useUTC", "nullcol"):
        if k in have and rng.random() < 0.4: o[k] = True
    return o


def gen_options(cmd):
    if cmd == "generate-pb": return dict(types=PB)
    if cmd == "export-xlsx": return dict(types=[t for t in CANON if t not in ("enum", "set")], groups=["", "core", "corex", "shop"], commas=False)
    if cmd == "export-quickdbd": return dict(colons=False)
    if cmd == "diff-flyway": return dict()
    return {}


def schema(cmd, rng, o, **kw):
    """a schema inside the bounds of cmd"""
    k = dict(gen_options(cmd), p_group=0.7); k.update(kw)
    if cmd.startswith("generate-") and cmd not in ("generate-liquibase", "generate-plantuml"):
        p, r = o.get("prefix", ""), o.get("removePrefix", "")
        def ok(s):
            if not models_distinct(s, p, r): return False
            if cmd == "generate-gorm": return links_ok(s, r, p)
            if cmd == "generate-pb": return links_ok(dict(s, tables=[dict(t, className="") for t in s["tables"]]), r, p)
            return True
        s = make(rng, ok, **k)
    else: s = Gen(rng, **k).schema()
    if cmd == "export-xlsx":
        for t in s["tables"]:
            for c in t["columns"]: c["default"] = c["default"].strip(); c["onupdate"] = c["onupdate"].strip()
    return s


def schemas(cmd, rng, o, **kw):
    """the schemas of all inputs of cmd"""
    if cmd.startswith("diff"):
        k = dict(gen_options(cmd)); k.update(kw)
        return list(pair(Gen(rng, **k), p_twins=kw.pop("p_twins", 0.5) if "p_twins" in kw else 0.5))
    return [schema(cmd, rng, o, **kw)]


def imported(cmd, rng):
    """the input file step of an import command, valid for sure"""
    mod = importlib.import_module("props." + IMPORTERS[cmd])
    while True:
        sc = mod.build(rng, 0, "quick")
        puts = [s for s in sc["steps"] if "put" in s and not s["put"].startswith("out")]
        runs = [s for s in sc["steps"] if "run" in s]
        if len(puts) == 1 and runs[0]["run"] == cmd and puts[0]["kind"] != "malformed": return puts[0], runs[0]["opts"]


def case(cmd, rng, spell=True):
    """-> (put steps, input names, options)"""
    if cmd == "init": return [], [], {}
    if cmd in IMPORTERS:
        put, o = imported(cmd, rng)
        return [put], [put["put"]], {k: v for k, v in o.items() if k != "none"}
    o = options(cmd, rng)
    ss = schemas(cmd, rng, o)
    names = ["a.json", "b.json"][:len(ss)]
    return [put_schema(n, s, rng if spell else None, rng.random() < 0.3 and spell) for n, s in zip(names, ss)], names, o
