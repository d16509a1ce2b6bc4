from octgen import Gen, col, table, schema as mk
from core import put_schema, run
from evolve import pair
from props.l01 import options
import models
COUNT = dict(quick=2700, thorough=27000)
RULE = "random pairs of schema versions (tables and columns added, dropped, renamed, retyped, re-keyed, reordered), random options"


def build(rng, i, tier):
    g = Gen(rng, blanks=True, lines=True)
    s, t = pair(g, True)
    o = options(rng)
    if rng.random() < 0.3: o["author"] = rng.choice(["foo", "An Author"])
    return dict(steps=[put_schema("a.json", s, rng), put_schema("b.json", t, rng), run("diff-flyway", ["a.json", "b.json"], "d.sql", o, rng)])


def fixed():
    s = mk([table("order", [col("id", "int64", pk=True), col("amount", "int32")])])
    t = mk([table("order", [col("id", "int64", pk=True), col("amount", "int64")])])
    return [("reserved-words", dict(steps=[put_schema("a.json", s), put_schema("b.json", t), run("diff-flyway", ["a.json", "b.json"], "d.sql")]))]


MODELS = [models.diffs("diff-flyway", "d.sql"), models.changes("diff-flyway", "d.sql"),
          models.tables("diff-flyway", "d.sql", "plain"), models.tables("diff-flyway", "d.sql", "groups")]
MODELS.append(models.rewords("diff-flyway", "d.sql"))
