from octgen import Gen
from core import put_schema, run
from evolve import pair
from props.l01 import options
from scopes import LQ_SHAPE
SKIP = LQ_SHAPE
import models
COUNT = dict(quick=2700, thorough=27000)
RULE = "random pairs of schema versions (tables and columns added, dropped, renamed, retyped, re-keyed, reordered), random options"


def build(rng, i, tier):
    g = Gen(rng, blanks=True, lines=True)
    s, t = pair(g)
    o = options(rng)
    if rng.random() < 0.5: o["author"] = rng.choice(["foo", "An Author"])
    return dict(steps=[put_schema("a.json", s, rng), put_schema("b.json", t, rng), run("diff-liquibase", ["a.json", "b.json"], "d.yml", o, rng)])


MODELS = [models.diffs("diff-liquibase", "d.yml"), models.changes("diff-liquibase", "d.yml"),
          models.tables("diff-liquibase", "d.yml", "plain"), models.tables("diff-liquibase", "d.yml", "groups")]
MODELS.append(models.rewords("diff-liquibase", "d.yml"))
