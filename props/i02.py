"""StarUML ER models."""
import json
from octgen import Gen
from core import run
import models
COUNT = dict(quick=2100, thorough=24000)
RULE = "random StarUML projects: one or several ER data models with diagrams and relationships in between, foreign keys in any direction"
TYPES = ["VARCHAR", "CHAR", "INT", "INTEGER", "BIGINT", "LONG", "DATETIME", "TIMESTAMP", "BOOLEAN", "DECIMAL", "NUMERIC", "TEXT", "DATE",
         "TIME", "BLOB", "FLOAT", "DOUBLE", "JSON", "int64", "int8", "text16", "Varbinary", "smallint", "TINYINT", "binary", "bit"]
SIZED = {"varchar", "char", "decimal", "numeric", "int64", "int8", "tinyint", "varbinary", "binary", "bit", "bigint", "float"}


def build(rng, i, tier):
    g = Gen(rng, self_ref=True, blanks=True, lines=True)
    n = [0]
    def uid():
        n[0] += 1
        return "AAAAAAF%07d%s=" % (n[0], rng.choice("abcXYZ"))
    project = dict(_type="Project", _id=uid(), name=rng.choice(["Untitled", "shop 1.0", "2.1", "My Project"]), ownedElements=[])
    if rng.random() < 0.1: del project["name"]
    pid, names, all_cols, models = project["_id"], [], [], []
    for _ in range(rng.choice([0, 1, 1, 1, 1, 1, 1, 2, 3])):
        m = dict(_type="ERDDataModel", _id=uid(), _parent={"$ref": pid}, name="Data Model", ownedElements=[])
        diagram = dict(_type="ERDDiagram", _id=uid(), _parent={"$ref": m["_id"]}, name="d", ownedViews=[dict(_type="ERDEntityView", _id=uid())])
        m["ownedElements"].append(diagram)
        ents = []
        for _ in range(rng.randint(0 if rng.random() < 0.1 else 1, 4)):
            e = dict(_type="ERDEntity", _id=uid(), _parent={"$ref": m["_id"]}, name=g.ident(names, True), columns=[])
            if rng.random() < 0.3: e["documentation"] = g.text()
            if rng.random() < 0.4: e["ownedElements"] = [dict(_type="ERDRelationship", _id=uid(), _parent={"$ref": e["_id"]},
                                                               end1=dict(_type="ERDRelationshipEnd", _id=uid()), end2=dict(_type="ERDRelationshipEnd", _id=uid()))]
            used, cols = [], []
            for _ in range(rng.randint(1, 6)):
                t = rng.choice(TYPES)
                c = dict(_type="ERDColumn", _id=uid(), _parent={"$ref": e["_id"]}, name=g.ident(used), type=t)
                a = dict(id=c["_id"], name=c["name"], type=t, length=0, pk=False, unique=False, nullable=False, doc="", refto="")
                if t.lower() in SIZED and rng.random() < 0.6:
                    if rng.random() < 0.5:
                        k = rng.choice([1, 5, 20, 255, 1000])
                        t2 = "%s(%d)" % (t, k)
                        if t.lower() in ("decimal", "numeric", "float"): t2 = "%s(%d%s%d)" % (t, k, rng.choice([",", ", "]), rng.choice([1, 2, 5]))
                        c["type"] = a["type"] = t2
                    if rng.random() < 0.6:
                        k = rng.choice([0, 1, 10, 40, 255, 16383])
                        c["length"] = rng.choice([k, str(k)]); a["length"] = k
                    elif rng.random() < 0.2: c["length"] = ""
                for key, k2, p in (("primaryKey", "pk", 0.3), ("unique", "unique", 0.2), ("nullable", "nullable", 0.5)):
                    if rng.random() < p: c[key] = a[k2] = True
                    elif rng.random() < 0.1: c[key] = False
                if rng.random() < 0.4:
                    a["doc"] = g.text().strip(); c["documentation"] = rng.choice(["", " ", "\n"]) + a["doc"] + rng.choice(["", "  ", "\n"])
                cols.append(a); e["columns"].append(c); all_cols.append((a, c))
            ents.append(dict(name=e["name"], columns=cols)); m["ownedElements"].append(e)
            if rng.random() < 0.2: m["ownedElements"].append(dict(_type="UMLNote", _id=uid(), name="note"))
        models.append(ents); project["ownedElements"].append(m)
        if rng.random() < 0.2: project["ownedElements"].append(dict(_type="UMLModel", _id=uid(), name="Model", ownedElements=[dict(_type="UMLClass", _id=uid(), name="X")]))
    for a, c in all_cols:
        if rng.random() < 0.2:
            b, _ = rng.choice(all_cols)
            if b is not a: a["refto"] = b["id"]; c["referenceTo"] = {"$ref": b["id"]}; c["foreignKey"] = True
    if all_cols and rng.random() < 0.02:
        # a reference to a column that is gone
        a, c = rng.choice(all_cols); a["refto"] = "AAAAAAFgone="; c["referenceTo"] = {"$ref": "AAAAAAFgone="}
    if all_cols and rng.random() < 0.05:
        a, c = rng.choice(all_cols); a["type"] = c["type"] = rng.choice(["FOO", "ENUM", "VARCHAR2(20)", ""])
    val, text, kind = dict(name=project.get("name", ""), models=models), json.dumps(project, indent=rng.choice([None, "\t"]), ensure_ascii=rng.random() < 0.5), "staruml"
    if rng.random() < 0.02: text, val, kind = rng.choice([text[:-1], "", "hello"]), "", "malformed"
    steps = [dict(put="in.mdj", kind=kind, val=val, text=text)]
    if rng.random() < 0.3: steps.append(dict(put="out.json", kind="other", val="", text="old"))
    return dict(steps=steps + [run("import-staruml", ["in.mdj"], "out.json", {}, rng)])


def enumerated(c, n):
    e = dict(_type="ERDEntity", _id="E", _parent={"$ref": "M"}, name="t_blue", columns=[])
    cs = []
    for k, d in enumerate(models.around(c, n)["tables"][0 if n % 3 == 0 else 1]["columns"]):
        a = dict(id="C%d" % k, name=d["name"], type=d["type"], length=d["size"], pk=d["pk"], unique=False, nullable=not d["notnull"], doc="", refto="")
        x = dict(_type="ERDColumn", _id=a["id"], _parent={"$ref": "E"}, name=a["name"], type=a["type"], length=a["length"])
        if a["pk"]: x["primaryKey"] = True
        if a["nullable"]: x["nullable"] = True
        cs.append(a); e["columns"].append(x)
    p = dict(_type="Project", _id="P", name="1.0", ownedElements=[dict(_type="ERDDataModel", _id="M", _parent={"$ref": "P"}, ownedElements=[e])])
    return dict(steps=[dict(put="in.mdj", kind="staruml", val=dict(name="1.0", models=[[dict(name="t_blue", columns=cs)]]), text=json.dumps(p)),
                       run("import-staruml", ["in.mdj"], "out.json")])


MODELS = [models.valid(enumerated, lambda c: not c["values"])]


def worded(s, n):
    ents, val = [], []
    for i, t in enumerate(s["tables"]):
        e = dict(_type="ERDEntity", _id="E%d" % i, _parent={"$ref": "M"}, name=t["name"], columns=[])
        if n % 2: e["documentation"] = t["desc"]
        cs = []
        for k, d in enumerate(t["columns"]):
            a = dict(id="C%d.%d" % (i, k), name=d["name"], type="VARCHAR", length=d["size"], pk=False, unique=False, nullable=not d["notnull"], doc=d["desc"].strip(), refto="")
            x = dict(_type="ERDColumn", _id=a["id"], _parent={"$ref": e["_id"]}, name=a["name"], type=a["type"], length=a["length"], nullable=a["nullable"])
            x["documentation"] = ["", " ", "\n"][(n + k) % 3] + d["desc"] + ["", "\n", "  "][k % 3]
            cs.append(a); e["columns"].append(x)
        ents.append(e); val.append(dict(name=t["name"], columns=cs))
    p = dict(_type="Project", _id="P", name=s["author"], ownedElements=[dict(_type="ERDDataModel", _id="M", _parent={"$ref": "P"}, ownedElements=ents)])
    return [dict(steps=[dict(put="in.mdj", kind="staruml", val=dict(name=p["name"], models=[val]), text=json.dumps(p)), run("import-staruml", ["in.mdj"], "out.json")])]


MODELS.append(models.texts(worded, members=False, defaults=False))
