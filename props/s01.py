from codeopts import make, prefix_map, removes, groups, models_distinct
from octgen import CANON
from core import put_schema, run
import models
COUNT = dict(quick=3000, thorough=40000)
SKIP = ("name-model",)
RULE = "random schemas with audit columns, python keywords as column names and unmapped types x prefix, remove-prefix, group, suffix and UTC options; one file or one per table"
ASSUMPTIONS = ["model and attribute names do not collide", "columns are not named metadata or registry", "-p maps are written group:prefix"]
KEYWORDS = """and as assert async await break class continue def del elif else except finally for from global if import in is lambda
nonlocal not or pass raise return try while with yield""".split()
KEYWORDS += [k.capitalize() for k in KEYWORDS[::3]] + [k.upper() for k in KEYWORDS[1::3]] + ["true", "none", "match", "self", "type", "print"]


def build(rng, i, tier):
    o = dict(groups=groups(rng), prefix=prefix_map(rng), removePrefix=removes(rng), suffix=rng.choice(["", "_uq", "_UNIQUE"]), useUTC=rng.random() < 0.4)
    s = make(rng, lambda s: models_distinct(s, o["prefix"], o["removePrefix"]), p_group=0.8, lines=True, p_unique=rng.choice([0.1, 0.4]), camel=0.15)
    if rng.random() < 0.3:
        for t in s["tables"]:
            if rng.random() < 0.5:
                for n in rng.sample(KEYWORDS, 2):
                    c = rng.choice(t["columns"])
                    if c["ref"] or any(c["name"] in x["columns"] for x in t["indices"]) or c["name"] == "id": continue
                    if any(c["name"] == d["ref"][0]["column"] for u in s["tables"] for d in u["columns"] if d["ref"]): continue
                    if n.lower() not in [d["name"].lower() for d in t["columns"]]: c["name"] = n
    if rng.random() < 0.25:
        for t in s["tables"]:
            u = rng.random()
            if u < 0.5:                                            # every column unique, or a model that needs few imports
                for c in t["columns"]:
                    if c["type"] in ("varchar", "int64", "int32", "datetime", "char"): c["unique"] = not c["pk"]
            elif u < 0.8: t["columns"] = [c for c in t["columns"] if c["unique"] or c["pk"]] or t["columns"]
            t["indices"] = [x for x in t["indices"] if all(n in [c["name"] for c in t["columns"]] for n in x["columns"])]
        for t in s["tables"]:
            for c in t["columns"]:
                if c["ref"] and c["ref"][0]["column"] not in [d["name"] for u in s["tables"] for d in u["columns"] if u["name"] == c["ref"][0]["table"]]: c["ref"] = []
    out = rng.choice(["out.py", "out", "models/x.py"])
    steps = [put_schema("a.json", s, rng, rng.random() < 0.3)]
    if out != "out.py": steps.append(dict(mkdir=out.split("/")[0]))
    return dict(steps=steps + [run("generate-sqlalchemy", ["a.json"], out, o, rng)])


MODELS = [models.attr(models.single("generate-sqlalchemy", "out.py", lambda n: dict(useUTC=n % 2 == 0)))] + models.keys(models.single("generate-sqlalchemy", "out.py", lambda n: dict(suffix="_uq" if n % 3 else "")))
MODELS.append(models.names(lambda s, n: models.single("generate-sqlalchemy", "out.py", lambda n: dict(suffix="_uq" if n % 3 else ""))(s, n)[0]))
MODELS.append(models.texts(models.single("generate-sqlalchemy", "out.py")))
MODELS.append(models.refs(models.single("generate-sqlalchemy", "out.py", lambda n: dict(groups=["", "x", "x,y,x1"][n % 3]))))
