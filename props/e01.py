from codeopts import make, groups
from core import put_schema, run
import models
COUNT = dict(quick=4500, thorough=60000)
RULE = "random schemas with dense references (forward, backward, to the own table) exported to dbml, quickdbd and plantuml"
ASSUMPTIONS = ["quickdbd: descriptions and defaults contain no '#' or ' FK '"]


# files by extension, anything else is a directory
PUML = ["out.puml", "out.wsd", "out.pu", "out.plantuml", "out.iuml", "OUT.PUML", "docs", "docs/er", "v1.0", "out.txt"]


def build(rng, i, tier):
    k = i % 3
    if k == 0:
        s = make(rng, lines=True, p_group=0.7, p_ref=rng.choice([0.1, 0.4]))
        return dict(steps=[put_schema("a.json", s, rng, rng.random() < 0.3), run("export-dbml", ["a.json"], rng.choice(["out.dbml", "out"]), dict(groups=groups(rng)), rng)])
    if k == 1:
        s = make(rng, lines=True, p_ref=rng.choice([0.1, 0.4]), colons=False)
        return dict(steps=[put_schema("a.json", s, rng, rng.random() < 0.3), run("export-quickdbd", ["a.json"], "out.txt", {}, rng)])
    s = make(rng, lines=True, p_ref=rng.choice([0.1, 0.4]))
    return dict(steps=[put_schema("a.json", s, rng, rng.random() < 0.3), run("generate-plantuml", ["a.json"], rng.choice(PUML), {}, rng)])


def enumerated(s, n):
    return [dict(steps=[put_schema("a.json", s), run(cmd, ["a.json"], out)]) for cmd, out in (("export-dbml", "a.dbml"), ("export-quickdbd", "a.txt"), ("generate-plantuml", "a.puml"))]


MODELS = [models.attr(enumerated)] + models.keys(enumerated, indexed=False)


def diagrams(s, n):
    """quickdbd has no way to write a '#' or a key in a text"""
    return enumerated(s, n) if not any("#" in x or "FK" in x for u in s["tables"] for c in u["columns"] for x in [c["desc"], c["default"], u["desc"]]) else enumerated(s, n)[::2]


MODELS.append(models.texts(diagrams))
MODELS.append(models.refs(enumerated))
