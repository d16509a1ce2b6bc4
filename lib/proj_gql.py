"""GraphQL schema text -> {file, root, query, types}."""
import os
from toks import Toks
PAT = r'(?P<ws>[\s,]+|#[^\n]*)|(?P<id>[A-Za-z_]\w*)|(?P<p>[{}:!\[\]()])'


def ty(t):
    if t.opt("["):
        x = "[" + ty(t) + "]"; t.want("]")
    else: x = t.of("id")
    if t.opt("!"): x += "!"
    return x


def block(t):
    t.want("{"); out = []
    while not t.opt("}"):
        n = t.of("id"); t.want(":"); out.append(dict(name=n, type=ty(t)))
    return out


def read(path):
    fs = sorted(os.listdir(path))
    if len(fs) != 1: raise ValueError("expected one file, found %s" % fs)
    with open(os.path.join(path, fs[0]), "rb") as f: t = Toks(f.read().decode("utf-8"), PAT)
    out = dict(file=fs[0], root="", query=[], types=[])
    while not t.end():
        k = t.of("id")
        if k == "schema":
            b = block(t)
            if len(b) != 1 or b[0]["name"] != "query": raise ValueError("schema block %s" % b)
            out["root"] = b[0]["type"]
        elif k == "type":
            n = t.of("id")
            b = block(t)
            if n == out["root"] and not out["query"]: out["query"] = b
            else: out["types"].append(dict(name=n, fields=b))
        else: raise ValueError("unexpected " + k)
    return out
