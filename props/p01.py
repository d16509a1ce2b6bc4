from codeopts import make, prefix_map, removes, groups, models_distinct, links_ok
from octgen import STRS, TEXTS, INTS
from octgen import col, table, schema as mk
from core import put_schema, run
import models
COUNT = dict(quick=3000, thorough=40000)
SKIP = ("name-model",)
RULE = "random schemas of the supported types x package, go_package, prefix, remove-prefix, group and relation tag options"
ASSUMPTIONS = ["columns have types protobuf supports", "a table has at most one reference per target table, none named like a column (known finding otherwise)", "-f maps are written group:prefix"]
TYPES = STRS + TEXTS + INTS + ["decimal", "float", "double", "boolean", "datetime"]


def build(rng, i, tier):
    o = dict(groups=groups(rng), prefix=prefix_map(rng), removePrefix=removes(rng), package=rng.choice(["", "foo", "foo.bar"]), goPackage=rng.choice(["", "foo/model", "model"]),
             tagStart=rng.choice(["", "", "30", "10", "1", "0", "3", "-1", "100"]), tagDecr=rng.random() < 0.4)
    s = make(rng, lambda s: models_distinct(s, o["prefix"], o["removePrefix"]) and links_ok(dict(s, tables=[dict(t, className="") for t in s["tables"]]), o["removePrefix"], o["prefix"]),
             types=TYPES, p_group=0.8, p_ref=rng.choice([0.1, 0.3, 0.5]), p_class=0.1, min_tables=rng.choice([1, 3]))
    return dict(steps=[put_schema("a.json", s, rng, rng.random() < 0.3), run("generate-pb", ["a.json"], rng.choice(["out.proto", "out"]), o, rng)])


def fixed():
    ref = lambda: [dict(table="user", column="id", relationship="n:1")]
    user = table("user", [col("id", "int64", pk=True, notnull=True)])
    twice = mk([user, table("message", [col("id", "int64", pk=True, notnull=True), col("sender_id", "int64", ref=ref()), col("receiver_id", "int64", ref=ref())])])
    like = mk([user, table("message", [col("id", "int64", pk=True, notnull=True), col("user", "int64", ref=ref())])])
    def one(s): return dict(steps=[put_schema("a.json", s), run("generate-pb", ["a.json"], "out.proto")])
    return [("two-references", one(twice)), ("reference-named-like-column", one(like)),
            ("unmapped-types", one(mk([table("t", [col("id", "int64", pk=True), col("d", "date"), col("b", "blob16"), col("e", "enum", values=["a"])])])))]


MODELS = [models.attr(models.single("generate-pb", "out.proto"), lambda c: c["type"] in TYPES)] + models.keys(models.single("generate-pb", "out.proto"), indexed=False)
MODELS.append(models.names(lambda s, n: models.single("generate-pb", "out.proto")(s, n)[0]))
MODELS.append(models.texts(models.single("generate-pb", "out.proto"), members=False))
MODELS.append(models.tags())
MODELS.append(models.refs(models.single("generate-pb", "out.proto", lambda n: dict(groups=["", "x", "x,y,x1"][n % 3])), twins=False))
