"""Options and schemas for the code generators."""
import octgen
from octgen import Gen, col

GROUPS = ["", "common", "core", "corex", "shop", "Core"]


def strip(n, removes):
    for p in removes:
        if p and n.startswith(p): n = n[len(p):]
    return n


def prefix_map(rng):
    """-p: one prefix for all, or group:prefix pairs"""
    x = rng.random()
    if x < 0.4: return ""
    if x < 0.65: return rng.choice(["C", "Abc", "App"])
    return ",".join("%s:%s" % (g, rng.choice(["C", "S", "Xy", "Abc", ""])) for g in rng.sample(["core", "common", "shop", "corex", "none", ""], rng.randint(1, 3)))


def removes(rng):
    x = rng.random()
    if x < 0.3: return ""
    if x < 0.6:                                                    # removed one after the other, in this order
        l = rng.choice([["tb_", "adm_"], ["adm_", "tb_"], ["t_", "b_"], ["tb", "_"], ["x_", "tb_"], ["tb_", "x_"], ["tb_", "tb_"], ["t_", "tb_", "adm_"]])
        return ",".join(l)
    return ",".join(rng.sample(["tb_", "t_", "x_", "tb", "nope_", "tb_x_"], rng.randint(1, 3)))


def groups(rng):
    if rng.random() < 0.6: return ""
    return ",".join(rng.sample(["common", "core", "corex", "shop", "Core", "none", "cor", "*"], rng.randint(1, 3)))


def camel(n):
    return "".join(w[:1].upper() + w[1:] for w in n.split("_"))


def models_distinct(s, prefix, removePrefix):
    """the model names do not collide, whatever their letter case, with and without class names"""
    return all(_distinct(x, prefix, removePrefix) for x in (s, dict(s, tables=[dict(t, className="") for t in s["tables"]])))


def _distinct(s, prefix, removePrefix):
    def pre(g):
        if ":" not in prefix: return prefix
        v = ""
        for k in prefix.split(","):
            a, _, b = k.partition(":")
            if a == g: v = b
        return v
    seen, short = set(), []
    for t in s["tables"]:
        base = strip(t["name"], removePrefix.split(","))
        if not base or not base.replace("_", "") or not base[0].isalpha(): return False
        n = (t["className"] or pre(t["group"]) + camel(base)).lower()
        if n in seen or n + "pk" in seen: return False
        seen.add(n)
        # python attributes and file names use the table name itself
    return not any(n + "pk" in seen or n + "repository" in seen for n in seen)


AUDIT = ["created_at", "updated_at", "deleted_at", "createdAt", "updatedAt"]


def audit(rng, s, p=0.3, others=("date", "varchar", "int64")):
    """some tables with the well-known audit columns"""
    for t in s["tables"]:
        have = {c["name"].replace("_", "").lower() for c in t["columns"]}
        if rng.random() >= p: continue
        for n in AUDIT:
            if rng.random() < 0.6 and n.replace("_", "").lower() not in have:
                have.add(n.replace("_", "").lower())
                ty = "datetime" if rng.random() < 0.8 else rng.choice(others)
                t["columns"].append(col(n, ty, notnull=rng.random() < 0.6))
    return s


def make(rng, ok=lambda s: True, **kw):
    while True:
        s = audit(rng, Gen(rng, **kw).schema(), others=[t for t in ("date", "varchar", "int64") if t in kw.get("types", (t,))])
        if ok(s): return s


def links_ok(s, removePrefix="", prefix="", lower=False):
    """references that get a field of their own (gorm, protobuf): one per target table, no clash with a column"""
    model = {t["name"]: (t["className"] or camel(strip(t["name"], removePrefix.split(",")))) for t in s["tables"]}
    for t in s["tables"]:
        seen = {c["name"].replace("_", "").lower() for c in t["columns"]}
        for c in t["columns"]:
            if not c["ref"] or c["ref"][0]["table"] not in model: continue
            for x in (model[c["ref"][0]["table"]],):
                for p in {"", *[y.partition(":")[2] if ":" in y else y for y in prefix.split(",")]}:
                    k = (p + x).lower()
                    if k in seen or k + "s" in seen or k + "list" in seen: return False
            k = ("->" + c["ref"][0]["table"]).lower()
            if k in seen: return False
            seen.add(k)
    return True
