from codeopts import make, prefix_map, removes, groups, models_distinct, GROUPS
from core import put_schema, run
import models
COUNT = dict(quick=3000, thorough=40000)
SKIP = ("name-model",)
RULE = "random schemas with audit columns x annotation, id entity, package, prefix, remove-prefix, relation, repository package, suffix and UTC options"
ASSUMPTIONS = ["model names do not collide", "-f and -a maps are written group:value", "relation is empty or VRelation"]
ANNO = ["@Common", "@Core", "@Foo;@Bar", "@Audited", '@Named("x")', '@Foo(level = 2);@Bar', "@a.b.Foo"]
MAPPED = ANNO + ['@Named("a:b")', '@Named("a:b");@Foo', ""]


KEYWORDS = "as break class continue do else false for fun if in interface is null object package return super this throw true try typealias typeof val var when while import value data open by init".split()


def annotation(rng):
    x = rng.random()
    if x < 0.5: return ""
    if x < 0.7: return rng.choice([a for a in ANNO if ";" not in a])
    return ",".join("%s:%s" % (g, rng.choice(MAPPED)) for g in rng.sample(["core", "common", "shop", "none", ""], rng.randint(1, 3)))


def build(rng, i, tier):
    o = dict(groups=groups(rng), prefix=prefix_map(rng), removePrefix=removes(rng), annotation=annotation(rng), idEntity=rng.choice(["", "", "IdEntity", "AutoId"]),
             package=rng.choice(["", "com.foo", "com.lechuck.foo"]), relation=rng.choice(["", "VRelation"]), reposPackage=rng.choice(["", "com.foo.repos", "repos"]),
             suffix=rng.choice(["", "_uq", "_UNIQUE"]), useUTC=rng.random() < 0.3)
    s = make(rng, lambda s: models_distinct(s, o["prefix"], o["removePrefix"]), p_group=0.8, lines=True, p_cpk=0.3, p_unique=rng.choice([0.1, 0.4]))
    if rng.random() < 0.2:
        for t in s["tables"]:
            c = rng.choice(t["columns"])
            n = rng.choice(KEYWORDS); n = rng.choice([n, n, n.capitalize()])
            if c["ref"] or any(c["name"] in x["columns"] for x in t["indices"]) or n.lower() in [d["name"].lower() for d in t["columns"]]: continue
            if any(c["name"] == d["ref"][0]["column"] for u in s["tables"] for d in u["columns"] if d["ref"]): continue
            c["name"] = n
    return dict(steps=[put_schema("a.json", s, rng, rng.random() < 0.3), dict(mkdir="out"), run("generate-kt", ["a.json"], "out", o, rng)])


MODELS = [models.attr(models.single("generate-kt", "out", lambda n: dict(package="foo", idEntity="IdEntity" if n % 2 else "", reposPackage="foo.repos" if n % 3 else ""), ["out"]))] + models.keys(models.single("generate-kt", "out", lambda n: dict(package="foo", idEntity="IdEntity" if n % 2 else "", reposPackage="foo.repos" if n % 3 else "", suffix="_uq" if n % 4 else ""), ["out"]))
MODELS.append(models.names(lambda s, n: models.single("generate-kt", "out", lambda n: dict(package="foo", idEntity="IdEntity" if n % 2 else "", reposPackage="foo.repos" if n % 3 else "", suffix="_uq" if n % 4 else ""), ["out"])(s, n)[0]))
MODELS.append(models.texts(models.single("generate-kt", "out", dirs=["out"])))
MODELS.append(models.refs(models.single("generate-kt", "out", lambda n: dict(package="foo", relation=["", "VRelation"][n % 2], groups=["", "x", "x,y,x1"][n % 3]), ["out"])))
