"""proto3 text -> {syntax, package, options, imports, messages}."""
import re
from toks import Toks
PAT = r'(?P<ws>\s+|//[^\n]*)|(?P<id>[A-Za-z_][\w.]*)|(?P<num>-?\d+)|(?P<str>"[^"\n]*")|(?P<p>[{}=;<>,\[\]])'


def read(path):
    with open(path, "rb") as f: text = f.read().decode("utf-8")
    t = Toks(text, PAT)
    out = dict(syntax="", package="", options=[], imports=[], messages=[])
    first = True
    while not t.end():
        k = t.of("id")
        if k == "syntax":
            if not first: raise ValueError("syntax is not the first statement")
            t.want("="); out["syntax"] = t.of("str")[1:-1]; t.want(";")
        elif k == "package":
            if out["package"]: raise ValueError("two packages")
            out["package"] = t.of("id"); t.want(";")
        elif k == "option":
            n = t.of("id"); t.want("="); out["options"].append(dict(name=n, val=t.of("str")[1:-1])); t.want(";")
        elif k == "import": out["imports"].append(t.of("str")[1:-1]); t.want(";")
        elif k == "message":
            m = dict(name=t.of("id"), fields=[])
            if "." in m["name"]: raise ValueError("dotted message name")
            t.want("{")
            while not t.opt("}"):
                x = t.of("id")
                rep = x == "repeated" and t.kind() == "id" and re.fullmatch(r"[A-Za-z_][\w.]*", t.peek(1) or "") is not None
                ty = t.of("id") if rep else x
                n = t.of("id"); t.want("="); tag = int(t.of("num")); t.want(";")
                if "." in n: raise ValueError("dotted field name")
                m["fields"].append(dict(name=n, type=ty, tag=tag, repeated=rep))
            out["messages"].append(m)
        else: raise ValueError("unexpected statement " + k)
        first = False
    if len(set(out["imports"])) != len(out["imports"]): raise ValueError("duplicate import")
    out["imports"].sort()
    return out
