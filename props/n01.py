from codeopts import make, prefix_map, removes, models_distinct, links_ok
from props.p01 import TYPES
from core import put_schema, run
import models
COUNT = dict(quick=1500, thorough=20000)
ONLY = ("name-", "must-succeed", "malformed", "models", "py-column", "go-tag-missing", "go-tag-extra", "kt-annotation")
RULE = "random schemas x prefix maps and prefix-removal lists, run through all five code generators with the same options"
ASSUMPTIONS = ["model names do not collide; protobuf ignores class names and graphql has no prefix options", "identifiers start with a letter"]


def build(rng, i, tier):
    p, r = prefix_map(rng), removes(rng)
    s = make(rng, lambda s: models_distinct(s, p, r) and links_ok(s, r, p) and links_ok(dict(s, tables=[dict(t, className="") for t in s["tables"]]), r, p),
             types=TYPES, p_group=0.8, p_class=rng.choice([0.0, 0.3]), camel=0.25, digits=0.25, long_names=0.1, p_ref=0.1, p_desc=0.1, p_index=0.2, prefix=0.7, prefixes=["tb_", "t_", "x_", "tb_adm_", "adm_tb_", "x_tb_", "tb_x_", "t_b_", "tb_tb_"])
    o = dict(prefix=p, removePrefix=r)
    steps = [put_schema("a.json", s, rng), dict(mkdir="gql"), dict(mkdir="kt")]
    steps += [run("generate-gorm", ["a.json"], "a.go", o, rng), run("generate-kt", ["a.json"], "kt", dict(o, package="com.foo"), rng),
              run("generate-sqlalchemy", ["a.json"], "a.py", o, rng), run("generate-pb", ["a.json"], "a.proto", o, rng),
              run("generate-graphql", ["a.json"], "gql", {}, rng)]
    return dict(steps=steps)


def enumerated(s, n):
    o = [{}, dict(prefix="core:C,shop:Shop"), dict(removePrefix="q_,tb_"), dict(prefix="core:Q", removePrefix="tb_,x_"), dict(removePrefix="x_,tb_")][n % 5]
    for i, t in enumerate(s["tables"]): t["name"] = ["", "tb_", "x_tb_", "tb_x_"][(n % 5 > 1) * (n + i) % 4] + t["name"]
    return dict(steps=[put_schema("a.json", s), dict(mkdir="gql"), dict(mkdir="kt"), run("generate-gorm", ["a.json"], "a.go", o), run("generate-kt", ["a.json"], "kt", dict(o, package="com.foo")),
                       run("generate-sqlalchemy", ["a.json"], "a.py", o), run("generate-pb", ["a.json"], "a.proto", o), run("generate-graphql", ["a.json"], "gql", {})])


MODELS = [models.names(enumerated)]
