"""Workbooks in the documented layout, written by the tool and by hand."""
import base64
import proj_xlsx
from octgen import Gen, spell_type
from core import put_schema, run
from props.x01 import schema
import models
COUNT = dict(quick=2100, thorough=24000)
RULE = "half: exported workbooks of random schemas, cell by cell; half: random hand-made workbooks in the documented layout (any column order of attributes, blank rows, blanks, sparse cells, index rows anywhere)"


def typetext(c, rng):
    t = spell_type(c["type"], rng)
    if c["size"] and c["scale"]: return "%s(%d%s%d)" % (t, c["size"], rng.choice([",", ", "]), c["scale"])
    return "%s(%d)" % (t, c["size"]) if c["size"] else t


def pad(s, rng): return s if rng.random() < 0.85 or s == "" else rng.choice([" ", "  "]) + s + rng.choice(["", " "])


def workbook(s, rng):
    sheets = {}
    for t in s["tables"]: sheets.setdefault(t["group"] or rng.choice(["Common", "misc"]), []).append(t)
    wb = []
    if rng.random() < 0.9:
        rows = [[k, s[k]] for k in ("author", "name", "version") if s[k] or rng.random() < 0.5]
        rng.shuffle(rows)
        if rng.random() < 0.1: rows.append(["note", "x"])
        wb.append(dict(name="Meta", rows=rows))
    for name in sheets:
        nullcol = rng.random() < 0.5
        rows = [["table/ref.", "column", "type", "key", pad("nullable" if nullcol else "not null", rng), "attributes", "description"]]
        if rng.random() < 0.1: rows.append(["", rng.choice(["intro", ""]), "", "", "", "", "text above the first table"])
        if rng.random() < 0.2: rows.append([])
        for t in sheets[name]:
            rows.append([pad(t["name"], rng), "", "table", "", "", "class=" + t["className"] if t["className"] else "", pad(t["desc"], rng)])
            for c in t["columns"]:
                at = []
                if c["autoinc"]: at.append(rng.choice(["autoInc", "autoinc"]))
                if c["default"]: at.append("default=" + c["default"])
                if c["onupdate"]: at.append("onUpdate=" + c["onupdate"])
                rng.shuffle(at)
                ref = ""
                if c["ref"]:
                    sign = {"n:1": rng.choice([">", ">", ""]), "1:n": "<", "1:1": "-", "": ">"}[c["ref"][0]["relationship"]]
                    ref = sign + c["ref"][0]["table"] + "." + c["ref"][0]["column"]
                elif rng.random() < 0.04: ref = rng.choice([">.id", "<.", "note", "a.b.c", ".id", "user.", "-x", "."])
                rows.append([pad(ref, rng), pad(c["name"], rng), pad(typetext(c, rng), rng), pad("P" if c["pk"] else "U" if c["unique"] else "", rng),
                             pad(rng.choice(["O", "O", "O", "o", "X", "Y", "1", "no"]) if c["notnull"] != nullcol else "", rng), rng.choice([",", ", "]).join(at), pad(c["desc"], rng)])
                if rng.random() < 0.03: rows.append(["", "", "", "", "", "", "a remark"])
            ix = [[pad(n["name"], rng), pad(c, rng), rng.choice(["", "", "", "int", "see above"]), pad("I", rng)] for n in t["indices"] for c in n["columns"]]
            if rng.random() < 0.3: ix = sorted(ix, key=lambda r: rng.random())
            rows += ix
            for _ in range(rng.choice([0, 1, 1, 2])): rows.append([])
        if rng.random() < 0.1: rows[0].append("extra")
        wb.append(dict(name=name, rows=rows))
    if rng.random() < 0.3: rng.shuffle(wb)
    for sh in wb:
        for r in sh["rows"]:
            while r and r[-1] == "": r.pop()
        while sh["rows"] and sh["rows"][-1] == []: sh["rows"].pop()
    return wb


def build(rng, i, tier):
    s = schema(rng)
    if rng.random() < 0.5:
        o = {"nullcol": True} if rng.random() < 0.5 else {}
        return dict(steps=[put_schema("a.json", s, rng, rng.random() < 0.3), run("export-xlsx", ["a.json"], "b.xlsx", o, rng)])
    wb = workbook(s, rng)
    if rng.random() < 0.05:
        rows = [r for sh in wb if sh["name"] != "Meta" for r in sh["rows"][1:] if len(r) > 2 and r[2] != "table" and r[2]]
        if rows: rng.choice(rows)[2] = rng.choice(["foo", "enum", "set", "varchar2(20)"])
    if rng.random() < 0.03:
        rows = [r for sh in wb if sh["name"] != "Meta" for r in sh["rows"][1:] if len(r) > 2 and r[2] == "table"]
        if rows: rng.choice(rows)[0] = rng.choice(["", " "])
    data = proj_xlsx.write(wb, rng)
    kind = "xlsx"
    if rng.random() < 0.02: data, wb, kind = rng.choice([b"", b"hello", data[:60]]), "", "malformed"
    return dict(steps=[dict(put="a.xlsx", kind=kind, val=wb, text="", b64=base64.b64encode(data).decode()),
                       run("import-xlsx", ["a.xlsx"], "b.json", {}, rng)])


def enumerated(c, n):
    import random
    rng = random.Random(n)
    wb = workbook(models.around(c, n), rng)
    return dict(steps=[dict(put="a.xlsx", kind="xlsx", val=wb, text="", b64=base64.b64encode(proj_xlsx.write(wb, rng)).decode()), run("import-xlsx", ["a.xlsx"], "b.json")])


MODELS = [models.valid(enumerated, lambda c: not c["values"] and c["name"])]


def worded(s, n):
    import random
    rng = random.Random(n)
    for t in s["tables"]: t["desc"] = pad(t["desc"], rng)
    wb = workbook(s, rng)
    return [dict(steps=[dict(put="a.xlsx", kind="xlsx", val=wb, text="", b64=base64.b64encode(proj_xlsx.write(wb, rng)).decode()), run("import-xlsx", ["a.xlsx"], "b.json")])]


MODELS.append(models.texts(worded, lambda s: s.strip() == s and "," not in s, members=False))
