import copy
import inputs
from octgen import col, table
from core import put_schema, run
COUNT = dict(quick=665, thorough=6000)
RULE = "every command on random inputs with many rename candidates, imports, embeddable models and names that differ only in letter case; six runs, other commands and old outputs in between, flags, aliases and environment variables mixed"
ASSUMPTIONS = ["workbooks are compared part by part: the order of parts in the archive is the archiver's"]
ONLY = ("same-input", "must-succeed", "must-fail", "malformed-output")


def twins(cmd, puts, rng):
    """names that differ only in letter case: what orders them must not be a hash map"""
    if cmd.startswith("diff"):
        s = puts[0]["val"]
        names = rng.sample(["twin", "Twin", "TWIN", "twiN", "tWin"], 4)
        if rng.random() < 0.5 or not s["tables"]: s["tables"] += [dict(copy.deepcopy(table("x", [col("id", "int64", pk=True), col("n", rng.choice(["int32", "date"]))])), name=n) for n in names]
        else: rng.choice(s["tables"])["columns"] += [col(n, rng.choice(["int32", "date"])) for n in names]
        if rng.random() < 0.3: puts[1]["val"]["tables"].append(table("atwin", [col("id", "int64", pk=True), col("n", "date")])); puts[1] = put_schema(puts[1]["put"], puts[1]["val"], rng)
        puts[0] = put_schema(puts[0]["put"], s, rng)
    elif cmd == "export-xlsx":
        for t in puts[0]["val"]["tables"]: t["group"] = rng.choice(["core", "Core", "CORE", "corE"])
        puts[0] = put_schema(puts[0]["put"], puts[0]["val"], rng)


def build(rng, i, tier):
    cmd = inputs.ALL[i % len(inputs.ALL)]
    puts, ins, o = inputs.case(cmd, rng)
    if cmd == "generate-gorm" and rng.random() < 0.8:
        cs = puts[0]["val"]["tables"][0]["columns"]
        have = [c["name"] for c in cs]
        if rng.random() < 0.6:                                     # a second model that competes for the same columns
            for n in ("id", "created_at", "updated_at", "deleted_at"):
                if n not in have: cs.append(col(n, "int64" if n == "id" else "datetime")); have.append(n)
            o["embed"] = rng.choice(["Base", "Audit", "zbase"]) + ":" + ",".join(rng.sample(["created_at", "updated_at"], 2) + [n for n in have if n not in ("id", "created_at", "updated_at", "deleted_at")][:1])
            puts[0] = put_schema(puts[0]["put"], puts[0]["val"], rng)
        else: o["embed"] = "Base:" + ",".join(rng.sample(have, min(len(have), 2)))
    if cmd.startswith("diff") and rng.random() < 0.25: ins = [ins[0], ins[0]]
    if rng.random() < 0.3: twins(cmd, puts, rng)
    steps = list(puts)
    d = cmd in inputs.DIRS
    base = inputs.OUT[cmd]
    stem, _, ext = base.partition(".")
    for k in range(6 if tier == "quick" else 9):
        out = base if k % 2 == 0 else stem + str(k) + ("." + ext if ext else "")
        if d and k != 2: steps.append(dict(mkdir=out))
        if k % 3 == 1 and not d: steps.append(dict(put=out, kind="other", val="", text="old content\n" * rng.choice([1, 5000])))
        steps.append(run(cmd, ins, out, o, rng, judge=False, remember=True, okind=inputs.OKIND(cmd)))
    return dict(steps=steps)
import models
MODELS = models.life()
