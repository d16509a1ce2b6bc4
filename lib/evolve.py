"""Random second versions of a schema, for the diff commands."""
import copy
from octgen import INTS, STRS, TEXTS, BLOBS, col

KEYABLE = INTS + STRS + ["date", "datetime", "decimal", "boolean", "time", "year"]


def used_cols(t): return [c["name"] for c in t["columns"]]


def twins(g, s):
    """adds columns and tables with equal definitions to s, so that renames have several candidates"""
    r = g.r
    tused = [t["name"] for t in s["tables"]]
    for t in s["tables"]:
        if r.random() < 0.35:
            used = used_cols(t)
            c = r.choice(t["columns"])
            for _ in range(r.choice([1, 1, 2])):
                d = copy.deepcopy(c); d.update(name=g.ident(used), pk=False, unique=c["unique"] and not c["pk"], autoinc=False)
                t["columns"].insert(r.randint(0, len(t["columns"])), d)
            if c["pk"] and len(t["columns"]) < 6 and r.random() < 0.5:
                d = copy.deepcopy(t["columns"][-1]); d.update(name=g.ident(used), pk=False, autoinc=False); t["columns"].append(d)
    for _ in range(r.choice([1, 1, 2])):
        if not s["tables"] or r.random() < 0.4: continue
        t = copy.deepcopy(r.choice(s["tables"])); t["name"] = g.ident(tused, True); t["className"] = ""
        s["tables"].insert(r.randint(0, len(s["tables"])), t)


def shuffle_twins(g, s, n):
    """drop and rename members of groups of equal columns or tables"""
    r = g.r
    def key(c): return repr({k: v for k, v in c.items() if k not in ("name", "desc")})
    for t in n["tables"]:
        used = used_cols(t)
        old = [used_cols(o) for o in s["tables"] if o["name"] == t["name"]]
        kept = [x for x in used if not old or x in old[0]]
        keep = r.choice(kept) if kept else ""          # one column of the old table survives
        by = {}
        for c in t["columns"]: by.setdefault(key(c), []).append(c)
        for cs in by.values():
            if len(cs) < 2 or r.random() < 0.3: continue
            for c in cs:
                x = r.random()
                if c["name"] == keep: continue
                if x < 0.4 and len(t["columns"]) > 1: t["columns"].remove(c)
                elif x < 0.65: c["name"] = g.ident(used)
        t["indices"] = [i for i in t["indices"] if all(x in used_cols(t) for x in i["columns"])]
    tused = [t["name"] for t in n["tables"]]
    by = {}
    for t in n["tables"]: by.setdefault(repr(t["columns"]), []).append(t)
    for ts in by.values():
        if len(ts) < 2 or r.random() < 0.3: continue
        for t in ts:
            x = r.random()
            if x < 0.4: n["tables"].remove(t)
            elif x < 0.7: t["name"] = g.ident(tused, True)


def evolve(g, s, intensity=None, autoinc_off=False, reorder=0.1):
    """-> new version of s (tables keep their group)"""
    r = g.r
    n = copy.deepcopy(s)
    if r.random() < 0.5: n["version"] = r.choice(["1.0.1", "2.2", "v4"])
    if r.random() < 0.2: n["author"] = r.choice(["bar", "", "Someone Else"])
    p = intensity if intensity is not None else r.choice([0.0, 0.15, 0.15, 0.3, 0.6])
    tused = [t["name"] for t in s["tables"]]
    out = []
    for t in n["tables"]:
        x = r.random()
        if x < p * 0.25: continue                                  # dropped
        if x < p * 0.5:                                            # renamed
            old = t["name"]
            t["name"] = g.ident(tused, True)
            if r.random() < 0.3: t["desc"] = g.text()
            for u in n["tables"]:
                for c in u["columns"]:
                    if c["ref"] and c["ref"][0]["table"] == old and u is not t and r.random() < 0.5: c["ref"][0]["table"] = t["name"]
            if r.random() < 0.7: out.append(t); continue           # otherwise renamed and changed
        if r.random() < p or x < p * 0.5: evolve_table(g, t, p, autoinc_off, reorder)
        out.append(t)
    while r.random() < p * 0.6: out.append(g.table(tused))
    if r.random() < p * 0.3 and s["tables"]:                        # copy of a table under another name
        t = copy.deepcopy(r.choice(s["tables"])); t["name"] = g.ident(tused, True); t["className"] = ""; out.append(t)
    if r.random() < 0.3: r.shuffle(out)
    n["tables"] = out
    names = {t["name"]: {c["name"] for c in t["columns"]} for t in out}
    for t in out:
        for c in t["columns"]:
            if c["ref"] and c["ref"][0]["column"] not in names.get(c["ref"][0]["table"], ()): c["ref"] = []
    seen = set()
    for t in out:
        if t["className"] and t["className"] in seen: t["className"] = ""
        seen.add(t["className"])
    return n


def evolve_table(g, t, p, autoinc_off, reorder):
    r = g.r
    q = max(p, 0.2)
    used = used_cols(t)
    if r.random() < q * 0.5: t["desc"] = "" if r.random() < 0.3 else g.text()
    for c in list(t["columns"]):
        x = r.random()
        if x < q * 0.2:                                             # drop
            if len(t["columns"]) > 1: t["columns"].remove(c)
            continue
        if x < q * 0.4:                                             # rename, possibly with further changes
            c["name"] = g.ident(used)
            if r.random() < 0.3: c["desc"] = g.text()
            if r.random() < 0.7: continue
        if r.random() < q: evolve_column(g, c, autoinc_off)
    k = 0
    while r.random() < q * 0.6 and k < 4:
        c = g.column(used); k += 1
        if r.random() < 0.3 and t["columns"]:                       # looks like an existing or dropped one
            d = copy.deepcopy(r.choice(t["columns"])); d.update(name=c["name"], pk=False, unique=False, autoinc=False); c = d
        t["columns"].insert(r.randint(0, len(t["columns"])), c)
    if r.random() < q * 0.3:                                        # primary key
        for c in t["columns"]:
            if c["type"] in KEYABLE and r.random() < 0.3 and not (c["pk"] and c["autoinc"]):
                c["pk"] = not c["pk"]
                if c["pk"]: c["notnull"] = r.random() < 0.7
    if r.random() < q * 0.4:                                        # unique
        for c in t["columns"]:
            if c["type"] in KEYABLE and r.random() < 0.3: c["unique"] = not c["unique"]
    if r.random() < reorder: r.shuffle(t["columns"])
    t["indices"] = [i for i in t["indices"] if all(x in used_cols(t) for x in i["columns"])]


def evolve_column(g, c, autoinc_off):
    r = g.r
    for what in r.sample(["type", "size", "notnull", "default", "desc", "autoinc", "values", "ref", "onupdate"], r.choice([1, 1, 1, 2, 3])):
        if what == "type" and not c["autoinc"]:
            if c["unique"] or c["pk"]: c["type"] = r.choice([t for t in g.o["types"] if t in KEYABLE])
            else: c["type"] = r.choice(g.o["types"])
            g.retype(c); g.redefault(c)
            if (c["type"] == "datetime") != c["onupdate"].startswith("fn::") or c["type"] not in STRS + ["datetime"]: c["onupdate"] = ""
        elif what == "size" and c["type"] not in ("enum", "set"):
            g.retype(c)
        elif what == "notnull": c["notnull"] = not c["notnull"]
        elif what == "default" and not c["autoinc"]:
            if c["default"]: c["default"] = "" if r.random() < 0.5 else g.literal(c)
            else: c["default"] = g.fn(c) if r.random() < g.o["p_fn"] else g.literal(c)
        elif what == "desc": c["desc"] = "" if r.random() < 0.3 else g.text()
        elif what == "autoinc":
            if not c["autoinc"] and c["type"] in INTS: c["autoinc"] = True; c["default"] = ""
            elif c["autoinc"] and autoinc_off: c["autoinc"] = False
        elif what == "values" and c["type"] in ("enum", "set"):
            g.retype(c)
            if c["default"] and c["default"] not in c["values"]: c["default"] = ""
        elif what == "ref": c["ref"] = []


def near(g, s, n):
    """drops columns (tables) and adds ones that differ from them in just one attribute: close to a rename, but none"""
    r = g.r
    for o in s["tables"]:
        ts = [t for t in n["tables"] if t["name"] == o["name"]]
        if not ts or len(o["columns"]) < 2 or r.random() < 0.5: continue
        t = ts[0]
        gone = r.choice([c for c in o["columns"]])
        kept = [c for c in t["columns"] if c["name"] in used_cols(o) and c["name"] != gone["name"]]
        if len(t["columns"]) < 2 or any(c["ref"] and c["ref"][0]["table"] == o["name"] and c["ref"][0]["column"] == gone["name"] for u in n["tables"] for c in u["columns"]): continue
        used = used_cols(t) + used_cols(o)
        t["columns"] = [c for c in t["columns"] if c["name"] != gone["name"]]
        d = copy.deepcopy(gone); d["name"] = g.ident(used)
        tweak(g, d)
        if not d["autoinc"] or not any(c["autoinc"] for c in t["columns"]): t["columns"].insert(r.randint(0, len(t["columns"])), d)
        t["indices"] = [i for i in t["indices"] if all(x in used_cols(t) for x in i["columns"])]
    tused = [t["name"] for t in s["tables"] + n["tables"]]
    for o in s["tables"]:
        if len(n["tables"]) < 2 or r.random() < 0.85 or any(c["ref"] and c["ref"][0]["table"] == o["name"] for u in n["tables"] for c in u["columns"]): continue
        n["tables"] = [t for t in n["tables"] if t["name"] != o["name"]]
        t = copy.deepcopy(o); t["name"] = g.ident(tused, True)
        for c in t["columns"]:
            if c["ref"]: c["ref"] = []
        x = r.random()
        if x < 0.6: tweak(g, r.choice(t["columns"]))
        elif x < 0.8 and len(t["columns"]) > 1: t["columns"].reverse()
        else: t["columns"].append(g.column(used_cols(t)))
        t["indices"] = []
        n["tables"].append(t)


def tweak(g, c):
    """changes exactly one attribute of c"""
    r = g.r
    real = c["type"] in ("decimal", "double", "float") and c["size"] > 5
    what = r.choice(["scale", "scale", "size"] if real and r.random() < 0.6 else ["notnull", "desc", "default", "unique", "pk", "type", "size", "values", "onupdate", "case"])
    if what == "scale": c["scale"] = r.choice([x for x in ((0, 1, 2, 3) if c["type"] == "decimal" else (1, 2, 3)) if x != c["scale"]])
    elif what == "size" and c["size"] and c["type"] != "bit": c["size"] += 1 if c["size"] < 255 else -1
    elif what == "notnull" and not c["autoinc"]: c["notnull"] = not c["notnull"]
    elif what == "desc": c["desc"] = g.text() if not c["desc"] or r.random() < 0.5 else ""
    elif what == "default" and not c["autoinc"]: c["default"] = "" if c["default"] else g.literal(c)
    elif what == "unique" and c["type"] in KEYABLE: c["unique"] = not c["unique"]
    elif what == "pk" and c["type"] in KEYABLE and not c["autoinc"]: c["pk"] = not c["pk"]
    elif what == "type" and c["type"] in INTS and not c["size"]: c["type"] = r.choice([x for x in INTS if x != c["type"] and x in g.o["types"]] or [c["type"]])
    elif what == "values" and len(c["values"]) > 1 and c["default"] == "":
        c["values"] = c["values"][::-1] if r.random() < 0.5 else c["values"][:-1]
    elif what == "onupdate" and c["type"] == "datetime": c["onupdate"] = "" if c["onupdate"] else "fn::CURRENT_TIMESTAMP"
    else: c["desc"] = (c["desc"] + " x") if c["desc"] else "x"


def pair(g, autoinc_off=False, p_twins=0.35):
    """two versions of a random schema"""
    s = g.schema()
    x = g.r.random()
    if x >= p_twins:
        n = evolve(g, s, g.r.choice([0.0, 0.1]) if x > 0.8 else None, autoinc_off=autoinc_off)
        if x > 0.8: near(g, s, n)
        return s, n
    twins(g, s)
    n = evolve(g, s, g.r.choice([0.0, 0.0, 0.1, 0.3]), autoinc_off=autoinc_off)
    shuffle_twins(g, s, n)
    return s, n
