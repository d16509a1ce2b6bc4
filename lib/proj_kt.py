"""Kotlin sources written by `generate kt` -> {files: [{path, package, imports, classes, repos}]}."""
import os
from toks import Toks
PAT = r'(?P<ws>[ \t\r\n]+|//[^\n]*)|(?P<str>"(?:[^"\\\n]|\\.)*")|(?P<num>\d[\w.]*)|(?P<id>[A-Za-z_]\w*|`[^`\n]+`)|(?P<p>::|[@(){}\[\]<>,.:=?*;])'
KEYWORDS = {"class", "val", "var", "fun", "object", "package", "interface", "in", "is", "as", "null", "true", "false", "this", "super", "when", "typeof", "typealias", "return", "break", "continue", "do", "while", "for", "if", "else", "try", "throw"}


def ident(t):
    x = t.of("id")
    if x in KEYWORDS: raise ValueError("keyword used as a name: " + x)
    return x.strip("`")


def dotted(t):
    s = ident(t)
    while t.peek() == "." :
        t.next(); s += "." + (t.next() if t.peek() == "*" else ident(t))
    return s


def value(t):
    """an expression: literals, names, calls, arrays -> canonical text"""
    if t.opt("["):
        xs = []
        while not t.opt("]"):
            xs.append(value(t))
            if not t.opt(","): t.want("]"); break
        return "[" + ",".join(xs) + "]"
    if t.kind() in ("str", "num"): return t.next()
    s = t.of("id")
    while True:
        if t.peek() in (".", "::"): s += t.next() + t.of("id")
        elif t.peek() == "(": s += "(" + ",".join("%s=%s" % (a["key"], a["val"]) if a["key"] else a["val"] for a in args(t)) + ")"
        else: return s


def args(t):
    t.want("("); out = []
    while not t.opt(")"):
        k = ""
        if t.kind() == "id" and t.peek(1) == "=": k = t.next(); t.next()
        out.append(dict(key=k, val=value(t)))
        if not t.opt(","): t.want(")"); break
    return out


def annotations(t):
    out = []
    while t.opt("@"):
        n = dotted(t)
        a = args(t) if t.peek() == "(" else []
        text = "@" + n + ("(%s)" % ",".join(x["key"] + ("=" if x["key"] else "") + x["val"] for x in a) if a else "")
        out.append(dict(name=n, args=a, text=text))
    return out


def typ(t):
    s = dotted(t)
    if t.opt("<"):
        xs = [typ(t)]
        while t.opt(","): xs.append(typ(t))
        t.want(">"); s += "<" + ",".join(xs) + ">"
    if t.opt("?"): s += "?"
    return s


def params(t):
    t.want("("); out = []
    while not t.opt(")"):
        an = annotations(t)
        ov = t.opt("override")
        if not (t.opt("var") or t.opt("val")): raise ValueError("expected var, found %r" % t.peek())
        n = ident(t); t.want(":"); ty = typ(t)
        d = value(t) if t.opt("=") else ""
        out.append(dict(name=n, type=ty.rstrip("?"), nullable=ty.endswith("?"), override=ov, default=d, annotations=an))
        if not t.opt(","): t.want(")"); break
    return out


def parse(text, path):
    t = Toks(text, PAT)
    f = dict(path=path, package="", imports=[], classes=[], repos=[])
    if t.opt("package"): f["package"] = dotted(t)
    while t.opt("import"): f["imports"].append(dotted(t))
    while not t.end():
        an = annotations(t)
        if t.opt("interface"):
            n = ident(t); t.want(":"); sup = typ(t)
            f["repos"].append(dict(name=n, sup=sup, annotations=an))
            continue
        t.want("data", "class")
        c = dict(name=ident(t), annotations=an, fields=params(t), supers=[])
        if not c["fields"]: raise ValueError("a data class needs a property")
        if t.opt(":"):
            c["supers"].append(typ(t))
            while t.opt(","): c["supers"].append(typ(t))
        f["classes"].append(c)
    f["imports"].sort()
    return f


def read(path):
    out = []
    for d, _, fs in os.walk(path):
        for x in fs:
            p = os.path.join(d, x)
            with open(p, "rb") as f: out.append(parse(f.read().decode("utf-8"), os.path.relpath(p, path)))
    return dict(files=sorted(out, key=lambda f: f["path"]))
