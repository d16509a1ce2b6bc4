"""DBML, QuickDBD and PlantUML text -> tables, columns and links."""
import re
from proj_go import only_file
from toks import Toks

DBML = r"(?P<ws>\s+|//[^\n]*)|(?P<str>'(?:[^'\\\n]|\\.)*'|\"(?:[^\"\\\n]|\\.)*\")|(?P<fn>`[^`\n]*`)|(?P<num>-?\d+(?:\.\d+)?(?![\w]))|(?P<id>[A-Za-z_]\w*)|(?P<p>[{}\[\](),:.<>-])"


def text(path):
    with open(path, "rb") as f: return f.read().decode("utf-8")


def unq(s):
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t"}.get(m.group(1), m.group(1)), s[1:-1])


def name(t):
    return unq(t.next()) if t.kind() == "str" and t.peek()[0] == '"' else t.of("id")


def dbml(path):
    t = Toks(text(path), DBML)
    out = dict(tables=[], links=[])

    def target(): a = name(t); t.want("."); return a, name(t)
    def rel():
        r = t.next()
        if r not in "<>-": raise ValueError("not a relation: " + r)
        return r
    while not t.end():
        k = t.of("id")
        if k.lower() == "ref":
            t.want(":"); a, b = target(); r = rel(); c, d = target()
            out["links"].append(dict(table=a, column=b, rel=r, totable=c, tocolumn=d))
            continue
        if k.lower() != "table": raise ValueError("unexpected " + k)
        tb = dict(name=name(t), columns=[]); t.want("{")
        while not t.opt("}"):
            c = dict(name=name(t), type=t.of("id"), pk=False, unique=False, notnull=False, default="", defkind="", note="")
            if t.opt("("):
                c["type"] += "(" + t.of("num")
                while t.opt(","): c["type"] += "," + t.of("num")
                t.want(")"); c["type"] += ")"
            seen = set()
            if t.opt("["):
                while True:
                    x = t.of("id")
                    if x != "ref" and x in seen: raise ValueError("setting %s given twice" % x)
                    seen.add(x)
                    if x == "pk": c["pk"] = True
                    elif x == "unique": c["unique"] = True
                    elif x == "not": t.want("null"); c["notnull"] = True
                    elif x == "default":
                        t.want(":")
                        kd = t.kind(); v = t.next()
                        if kd == "str" and v[0] == "'": c["defkind"], c["default"] = "string", unq(v)
                        elif kd == "fn": c["defkind"], c["default"] = "function", v[1:-1]
                        elif kd == "num": c["defkind"], c["default"] = "number", v
                        elif v.lower() in ("true", "false", "null"): c["defkind"], c["default"] = "boolean", v
                        else: raise ValueError("not a default value: " + v)
                    elif x == "note":
                        t.want(":"); c["note"] = unq(t.of("str"))
                    elif x == "ref":
                        t.want(":"); r = rel(); a, b = target()
                        out["links"].append(dict(table=tb["name"], column=c["name"], rel=r, totable=a, tocolumn=b))
                    else: raise ValueError("unknown setting " + x)
                    if t.opt("]"): break
                    t.want(",")
            tb["columns"].append(c)
        out["tables"].append(tb)
    return out


QCOL = re.compile(r"(?P<name>\w+) (?P<type>[\w(),]+)(?P<pk> PK)?(?P<unique> UNIQUE)?(?P<autoinc> AUTOINCREMENT)?(?P<nullable> NULLABLE)?"
                  r"(?: default=(?P<default>.*?))?(?: FK (?P<rel>>-|-<|-) (?P<t>\w+)\.(?P<c>\w+))?(?: # (?P<desc>.*))?")


def quickdbd(path):
    lines = text(path).split("\n")
    out = dict(tables=[], links=[])
    i = 0
    while i < len(lines):
        if lines[i].strip() == "": i += 1; continue
        m = re.fullmatch(r"(\w+)(?: # (.*))?", lines[i])
        if not m: raise ValueError("not a table: " + lines[i])
        if i + 1 >= len(lines) or not re.fullmatch(r"-+", lines[i + 1]): raise ValueError("table %s is not underlined" % m.group(1))
        tb = dict(name=m.group(1), desc=m.group(2) or "", columns=[])
        i += 2
        while i < len(lines) and lines[i].strip() != "":
            m = QCOL.fullmatch(lines[i])
            if not m: raise ValueError("not a column: " + lines[i])
            g = m.groupdict()
            tb["columns"].append(dict(name=g["name"], type=g["type"], pk=bool(g["pk"]), unique=bool(g["unique"]), autoinc=bool(g["autoinc"]),
                                      nullable=bool(g["nullable"]), default=g["default"] or "", desc=g["desc"] or ""))
            if g["rel"]: out["links"].append(dict(table=tb["name"], column=g["name"], rel=g["rel"], totable=g["t"], tocolumn=g["c"]))
            i += 1
        out["tables"].append(tb)
    return out


def plantuml(path):
    lines = [l.strip() for l in text(only_file(path, "output.plantuml")).split("\n")]
    lines = [l for l in lines if l and not l.startswith("'")]
    if lines[0] != "@startuml" or lines[-1] != "@enduml": raise ValueError("missing @startuml or @enduml")
    out = dict(tables=[], links=[])
    cur = None
    for l in lines[1:-1]:
        if cur is None:
            m = re.fullmatch(r"entity ([\w$]+) \{", l)
            if m: cur = dict(name=m.group(1), columns=[], rule=[]); continue
            m = re.fullmatch(r"([\w$]+) (\}o-\|\||\|\|-o\{|\|\|-\|\|) ([\w$]+)", l)
            if not m: raise ValueError("unexpected line: " + l)
            out["links"].append(dict(table=m.group(1), rel=m.group(2), totable=m.group(3)))
        elif l == "}": out["tables"].append(cur); cur = None
        elif l == "--": cur["rule"].append(len(cur["columns"]))
        else:
            m = re.fullmatch(r"(\* )?([\w$]+): (\w+)((?: <<\w+>>)*)", l)
            if not m: raise ValueError("not a column: " + l)
            cur["columns"].append(dict(name=m.group(2), type=m.group(3), notnull=bool(m.group(1)), marks=re.findall(r"<<(\w+)>>", m.group(4))))
    if cur is not None: raise ValueError("entity is not closed")
    return out
