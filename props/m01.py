from octgen import Gen, col, table, schema as mk
from core import put_schema, run
import models
COUNT = dict(quick=1200, thorough=18000)


def build(rng, i, tier):
    g = Gen(rng, blanks=True, lines=True, p_noname=0.1)
    s = g.schema()
    opts = {}
    if rng.random() < 0.3: opts["groups"] = ",".join(rng.sample(["common", "core", "corex", "shop", "Core", "nope"], rng.choice([1, 2, 3])))
    if rng.random() < 0.6: opts["suffix"] = rng.choice(["_uq", "_UK", "_unique", ""])
    return dict(steps=[put_schema("in.json", s, rng, rng.random() < 0.3), run("export-mysql", ["in.json"], "out.sql", opts, rng)])


def fixed():
    s = mk([table("order", [col("id", "int64", pk=True), col("group", "varchar", size=10)])])
    return [("reserved-words", dict(steps=[put_schema("in.json", s), run("export-mysql", ["in.json"], "out.sql")]))]


MODELS = [models.attr(models.single("export-mysql", "out.sql", lambda n: dict(suffix="_uq") if n % 2 else {}))] + models.keys(models.single("export-mysql", "out.sql", lambda n: dict(suffix="_uq") if n % 2 else {}))
MODELS.append(models.texts(models.single("export-mysql", "out.sql")))
