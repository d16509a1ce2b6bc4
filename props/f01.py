from codeopts import make, models_distinct, links_ok
from octgen import Gen
from evolve import pair
from props.p01 import TYPES
from core import put_schema, run
import models
COUNT = dict(quick=1200, thorough=15000)
RULE = "random schemas with look-alike groups; group lists with unknown, repeated, empty, prefix and differently cased names x every command with the option"
ASSUMPTIONS = ["tables keep their group between the versions of a diff", "references to unselected tables may be shown by gorm and kt; protobuf and dbml leave them out"]
POOL = ["", "common", "core", "corex", "shop", "Core", "my group", "co"]
CODE = [("generate-gorm", "a.go"), ("generate-sqlalchemy", "a.py"), ("generate-pb", "a.proto"), ("generate-kt", "kt"), ("export-dbml", "a.dbml")]
PLAIN = [("export-mysql", "a.sql"), ("generate-liquibase", "a.yml")]
DIFF = [("diff-liquibase", "d.yml"), ("diff-flyway", "d.sql"), ("diff-md", "d.md")]


def groups(rng):
    x = rng.random()
    if x < 0.1: return ""
    g = rng.sample(POOL + ["nope", "cor", "COMMON", "shop ", "*", "all"], rng.choice([1, 1, 2, 3, 5]))
    if x < 0.2: g.append(rng.choice(g))
    return ",".join(g)


def build(rng, i, tier):
    if i % 2 == 0:
        s = make(rng, lambda s: models_distinct(s, "", "") and links_ok(s) and links_ok(dict(s, tables=[dict(t, className="") for t in s["tables"]])),
                 types=TYPES, groups=POOL, p_group=0.85, min_tables=2, max_tables=7, max_cols=4)
        steps = [put_schema("a.json", s, rng, rng.random() < 0.3), dict(mkdir="kt")]
        for cmd, out in rng.sample(CODE, 3) + PLAIN: steps.append(run(cmd, ["a.json"], out, dict(groups=groups(rng)), rng))
    else:
        g = Gen(rng, groups=POOL, p_group=0.85, min_tables=2, max_tables=6, max_cols=5)
        s, t = pair(g)
        for u in t["tables"]:                        # names that stay keep their group
            for v in s["tables"]:
                if u["name"] == v["name"]: u["group"] = v["group"]
        steps = [put_schema("a.json", s, rng), put_schema("b.json", t, rng)]
        for cmd, out in DIFF: steps.append(run(cmd, ["a.json", "b.json"], out, dict(groups=groups(rng)), rng))
    return dict(steps=steps)


MODELS = [models.tables(cmd, out, "groups") for cmd, out in DIFF]
MODELS.append(models.filters(CODE + PLAIN, DIFF))
