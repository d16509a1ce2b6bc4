from octgen import Gen
from core import put_schema, run
from evolve import evolve, pair
from props.l01 import options
from scopes import LQ_SHAPE
ONLY = LQ_SHAPE + ["must-succeed", "malformed-output"]
import models
COUNT = dict(quick=2700, thorough=27000)
RULE = "random schemas and version pairs; a third of the pairs describe the same database in other words"


def build(rng, i, tier):
    g = Gen(rng, blanks=True, lines=True)
    s = g.schema()
    o = options(rng)
    x = rng.random()
    if x < 0.25:
        return dict(steps=[put_schema("in.json", s, rng, rng.random() < 0.3), run("generate-liquibase", ["in.json"], "out.yml", o, rng)])
    if rng.random() < 0.5: o["author"] = rng.choice(["foo", "An Author", "\uc800\uc790"])
    if x < 0.5:                       # the same database: other spelling, texts and links
        t = evolve(g, s, 0.0)
        for tb in t["tables"]:
            if rng.random() < 0.3: tb["className"] = ""
            if not o.get("comments") and rng.random() < 0.4: tb["desc"] = g.text()
            if rng.random() < 0.3: tb["indices"] = []
            for c in tb["columns"]:
                if rng.random() < 0.2: c["ref"] = []
                if rng.random() < 0.2: c["onupdate"] = ""
                if not o.get("comments") and rng.random() < 0.3: c["desc"] = g.text()
    elif x < 0.75: s, t = pair(g, p_twins=1)
    else: t = evolve(g, s, rng.choice([0.1, 0.2, 0.4]))
    return dict(steps=[put_schema("a.json", s, rng), put_schema("b.json", t, rng, rng.random() < 0.5), run("diff-liquibase", ["a.json", "b.json"], "d.yml", o, rng)])


MODELS = [models.diffs("diff-liquibase", "d.yml"), models.changes("diff-liquibase", "d.yml", 1, 64),
          models.tables("diff-liquibase", "d.yml", "plain"), models.tables("diff-liquibase", "d.yml", "groups")]
MODELS.append(models.rewords("diff-liquibase", "d.yml"))
