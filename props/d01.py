from octgen import Gen
from core import put_schema, run
from evolve import pair
from props.l01 import options
import models
COUNT = dict(quick=2700, thorough=27000)
RULE = "random pairs of schema versions (tables and columns added, dropped, renamed, retyped, re-keyed, reordered), random options"


def build(rng, i, tier):
    g = Gen(rng, blanks=True)
    s, t = pair(g, True)
    o = options(rng)
    if rng.random() < 0.3: o["author"] = rng.choice(["foo", "An Author"])
    return dict(steps=[put_schema("a.json", s, rng), put_schema("b.json", t, rng), run("diff-md", ["a.json", "b.json"], "d.md", o, rng)])


MODELS = [models.diffs("diff-md", "d.md"), models.changes("diff-md", "d.md"),
          models.tables("diff-md", "d.md", "plain"), models.tables("diff-md", "d.md", "groups")]
MODELS.append(models.rewords("diff-md", "d.md"))
