from codeopts import make, models_distinct
from core import put_schema, run
import models
COUNT = dict(quick=3000, thorough=40000)
SKIP = ("name-model",)
RULE = "random schemas of all types with single, composite and missing primary keys, class names"
ASSUMPTIONS = ["schema names and versions are legal in file names", "model names do not collide"]


def build(rng, i, tier):
    s = make(rng, lambda s: models_distinct(s, "", ""), p_cpk=0.3, p_pk=0.8)
    o = dict(gqlpackage=rng.choice(["", "foo", "foo.bar"]))
    return dict(steps=[put_schema("a.json", s, rng, rng.random() < 0.3), dict(mkdir="out"), run("generate-graphql", ["a.json"], "out", o, rng)])


MODELS = [models.attr(models.single("generate-graphql", "out", dirs=["out"]))] + models.keys(models.single("generate-graphql", "out", dirs=["out"]), indexed=False)
MODELS.append(models.names(lambda s, n: models.single("generate-graphql", "out", dirs=["out"])(s, n)[0], tables=lambda t: t.replace("_", "").lower() != "i"))    # the plural of I is we
MODELS.append(models.texts(models.single("generate-graphql", "out", dirs=["out"])))
