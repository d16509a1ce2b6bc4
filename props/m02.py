from ddlgen import Ddl
import models
from core import run
COUNT = dict(quick=4500, thorough=60000)
RULE = "random CREATE TABLE scripts: every declaration in a random one of its spellings, other statements and comments in between"
BAD = ["CREATE TABLE", "CREATE TABLE t (a int", "CREATE TABLE t (a int,,b int);", "hello world;", "CREATE TABLE t (a int b int);",
       "CREATE TABLE t (a foo);", "CREATE TABLE t (a varchar);", "CREATE TABLE ok (a int); CREATE TABL t (b int);", "CREATE TABLE t (a int DEFAULT);"]


def build(rng, i, tier):
    g = Ddl(rng, quotes=True, blanks=True, lines=True)
    text, stmts = g.script()
    names = [s["table"] for s in stmts]
    opts = {}
    ex = []
    if rng.random() < 0.4:
        ex = rng.sample(names, rng.randint(0, len(names)))
        ex += rng.sample(["nope", names[0][:-1], names[0] + "x", names[0].upper() + "_"], rng.randint(0, 2))
        rng.shuffle(ex)
        opts["excludes"] = ",".join(ex)
    if rng.random() < 0.5: opts["author"] = rng.choice(["foo", "Lechuck Roh"])
    if rng.random() < 0.5: opts["version"] = rng.choice(["1.0.0", "v2"])
    if rng.random() < 0.04:
        text = text + "\n" + rng.choice(BAD) if rng.random() < 0.5 else rng.choice(BAD)
        return dict(steps=[dict(put="in.sql", kind="malformed", val="", text=text), run("import-mysql", ["in.sql"], "out.json", opts, rng)])
    st = run("import-mysql", ["in.sql"], "out.json", opts, rng)
    st["opts"] = dict(st["opts"], excludes=ex)
    return dict(steps=[dict(put="in.sql", kind="ddl", val=stmts, text=text), st])


def enumerated(text, stmts, n):
    st = run("import-mysql", ["in.sql"], "out.json", {})
    st["opts"] = dict(st["opts"], excludes=[])
    return dict(steps=[dict(put="in.sql", kind="ddl", val=stmts, text=text), st])


MODELS = [models.ddl(enumerated)]
