"""Go source written by `generate gorm` -> {package, imports, used, structs}."""
import os, re, subprocess

BASE = {"gopkg.in/guregu/null.v4": "null", "github.com/shopspring/decimal": "decimal", "github.com/jinzhu/gorm": "gorm", "time": "time"}


def only_file(path, name):
    """path itself, or its only file `name` when path is a directory"""
    if not os.path.isdir(path): return path
    fs = os.listdir(path)
    if fs != [name]: raise ValueError("expected only %s in the output directory, found %s" % (name, sorted(fs)))
    return os.path.join(path, name)


def fmt(text):
    r = subprocess.run(["gofmt", "-e"], input=text.encode(), capture_output=True)
    if r.returncode: raise ValueError("not a Go file: " + r.stderr.decode()[:300])
    return r.stdout.decode()


def read(path):
    path = only_file(path, "output.go")
    with open(path, "rb") as f: src = fmt(f.read().decode("utf-8"))
    lines = src.split("\n")
    out = dict(package="", imports=[], used=[], structs=[])
    used, cur, i = set(), None, 0
    methods = {}
    while i < len(lines):
        l = lines[i].strip(); i += 1
        if not l or l.startswith("//"): continue
        m = re.fullmatch(r"package (\w+)", l)
        if m: out["package"] = m.group(1); continue
        if l == "import ()": continue
        m = re.fullmatch(r'import "([^"]+)"', l)
        if m: out["imports"].append(m.group(1)); continue
        if l == "import (":
            while lines[i].strip() != ")":
                x = lines[i].strip(); i += 1
                if x: out["imports"].append(re.fullmatch(r'"([^"]+)"', x).group(1))
            i += 1
            continue
        m = re.fullmatch(r"type (\w+) struct \{(\})?", l)
        if m:
            cur = dict(name=m.group(1), embedded=[], fields=[], table="")
            out["structs"].append(cur)
            if m.group(2): cur = None
            continue
        if cur is not None:
            if l == "}": cur = None; continue
            m = re.fullmatch(r"(\w+)\s+(\S+)(?:\s+`gorm:\"(.*)\"`)?", l)
            if m:
                tags = [x for x in (m.group(3) or "").split(";") if x]
                cur["fields"].append(dict(name=m.group(1), type=m.group(2), tags=tags))
                q = re.match(r"[*\[\]]*(\w+)\.\w", m.group(2))
                if q: used.add(q.group(1))
                continue
            m = re.fullmatch(r"([\w.]+)", l)
            if not m: raise ValueError("unexpected line in a struct: " + l)
            cur["embedded"].append(m.group(1))
            if "." in m.group(1): used.add(m.group(1).split(".")[0])
            continue
        m = re.fullmatch(r'func \((?:\w+ )?\*?(\w+)\) TableName\(\) string \{ return "(.*)" \}', l)
        if not m and re.match(r"func \(.*TableName\(\) string \{$", l):
            l2 = l + " " + lines[i].strip() + " }"; i += 2
            m = re.fullmatch(r'func \((?:\w+ )?\*?(\w+)\) TableName\(\) string \{ return "(.*)" \}', l2)
        if not m: raise ValueError("unexpected line: " + l)
        if m.group(1) in methods: raise ValueError("TableName of %s is defined twice" % m.group(1))
        methods[m.group(1)] = m.group(2)
    for s in out["structs"]: s["table"] = methods.pop(s["name"], "")
    if methods: raise ValueError("methods of unknown types: %s" % sorted(methods))
    for x in out["imports"]:
        if x not in BASE: raise ValueError("unknown import " + x)
    out["unused"] = sorted(x for x in out["imports"] if BASE[x] not in used)
    out["missing"] = sorted(u for u in used if u not in [BASE[x] for x in out["imports"]] and u in BASE.values())
    del out["used"]
    out["imports"].sort()
    return out
