from octgen import Gen
from core import put_schema, run
from scopes import LQ_SHAPE
SKIP = LQ_SHAPE
import models
COUNT = dict(quick=2700, thorough=27000)
RULE = "random schemas over all types, with random groups, suffix and comments options"


def options(rng):
    opts = {}
    if rng.random() < 0.3: opts["groups"] = ",".join(rng.sample(["common", "core", "corex", "shop", "Core", "nope"], rng.choice([1, 2, 3])))
    if rng.random() < 0.6: opts["suffix"] = rng.choice(["_uq", "_UK", "_unique"])
    if rng.random() < 0.6: opts["comments"] = True
    return opts


def build(rng, i, tier):
    s = Gen(rng, blanks=True, lines=True).schema()
    return dict(steps=[put_schema("in.json", s, rng, rng.random() < 0.3), run("generate-liquibase", ["in.json"], "out.yml", options(rng), rng)])


MODELS = [models.attr(models.single("generate-liquibase", "out.yml", lambda n: dict(comments=n % 2 == 0, suffix="_uq" if n % 3 else "")))] + models.keys(models.single("generate-liquibase", "out.yml", lambda n: dict(comments=n % 2 == 0, suffix="_uq" if n % 3 else "")), indexed=False)
MODELS.append(models.texts(models.single("generate-liquibase", "out.yml", lambda n: dict(comments=n % 4 > 0))))
