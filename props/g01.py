from codeopts import make, prefix_map, removes, groups, models_distinct, links_ok
from octgen import col, table, schema as mk
from core import put_schema, run
import models
COUNT = dict(quick=3000, thorough=40000)
SKIP = ("name-",)
RULE = "random schemas with audit columns and references x embed, pointer, package, prefix, remove-prefix, group and suffix options"
ASSUMPTIONS = ["a table has at most one reference per target table, none named like a column (known finding otherwise)", "model names do not collide", "-p maps are written group:prefix"]


def embed(rng, s):
    x = rng.random()
    if x < 0.45: return ""
    if x < 0.55: return "gorm.Model:" + rng.choice(["", "id", "id,created_at", "id,created_at,updated_at"])
    t = rng.choice(s["tables"])
    cs = [c["name"] for c in t["columns"]]
    cs = rng.sample(cs, min(len(cs), rng.choice([1, 2, 2, 3])))
    if rng.random() < 0.2: cs.append("nope")
    return rng.choice(["Base", "model.Base", "AuditModel"]) + ":" + ",".join(cs)


def build(rng, i, tier):
    o = dict(groups=groups(rng), prefix=prefix_map(rng), removePrefix=removes(rng), pointer=rng.random() < 0.4,
             suffix=rng.choice(["", "_uq", "_UNIQUE"]), package=rng.choice(["", "model", "entity"]))
    s = make(rng, lambda s: models_distinct(s, o["prefix"], o["removePrefix"]) and links_ok(s, o["removePrefix"], o["prefix"]),
             p_group=0.8, lines=True, p_ref=rng.choice([0.1, 0.3]), upper_first=0.0)
    o["embed"] = embed(rng, s)
    return dict(steps=[put_schema("a.json", s, rng, rng.random() < 0.3), run("generate-gorm", ["a.json"], rng.choice(["out.go", "out.go", "out"]), o, rng)])


def fixed():
    ref = lambda: [dict(table="user", column="id", relationship="n:1")]
    user = table("user", [col("id", "int64", pk=True, notnull=True)])
    twice = mk([user, table("message", [col("id", "int64", pk=True, notnull=True), col("sender_id", "int64", ref=ref()), col("receiver_id", "int64", ref=ref())])])
    like = mk([user, table("message", [col("id", "int64", pk=True, notnull=True), col("user", "int64", ref=ref())])])
    def one(s): return dict(steps=[put_schema("a.json", s), run("generate-gorm", ["a.json"], "out.go")])
    return [("two-references", one(twice)), ("reference-named-like-column", one(like))]


MODELS = [models.attr(models.single("generate-gorm", "out.go", lambda n: dict(pointer=n % 2 == 0)))] + models.keys(models.single("generate-gorm", "out.go", lambda n: dict(pointer=n % 2 == 0, suffix="_uq" if n % 3 else "")))
MODELS.append(models.names(lambda s, n: models.single("generate-gorm", "out.go", lambda n: dict(pointer=n % 2 == 0, suffix="_uq" if n % 3 else ""))(s, n)[0]))
MODELS.append(models.texts(models.single("generate-gorm", "out.go")))
MODELS.append(models.refs(models.single("generate-gorm", "out.go", lambda n: dict(pointer=n % 2 == 0, groups=["", "x", "x,y,x1"][n % 3])), twins=False))
