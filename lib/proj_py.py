"""Python source written by `generate sqlalchemy` -> {files: [{name, imports, missing, classes}]}."""
import ast, builtins, os


def expr(n): return ast.unparse(n)


def lit(n):
    if isinstance(n, ast.Constant) and isinstance(n.value, str): return n.value
    raise ValueError("expected a string: " + expr(n))


def sqltype(n):
    """a type in a Column call -> [name, args...] with keyword arguments as k=v"""
    if isinstance(n, ast.Name): return dict(name=n.id, args=[])
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
        return dict(name=n.func.id, args=[expr(a) for a in n.args] + sorted("%s=%s" % (k.arg, expr(k.value)) for k in n.keywords))
    raise ValueError("not a column type: " + expr(n))


def column(name, call):
    if not (isinstance(call, ast.Call) and isinstance(call.func, ast.Name) and call.func.id == "Column"):
        raise ValueError("not a Column: " + expr(call))
    args = list(call.args)
    col = ""
    if args and isinstance(args[0], ast.Constant): col = lit(args.pop(0))
    if len(args) > 1: raise ValueError("too many arguments: " + expr(call))
    ty = [sqltype(args[0])] if args else []
    kw = [dict(key=k.arg, val=expr(k.value)) for k in call.keywords]
    return dict(name=name, column=col, type=ty, kw=sorted(kw, key=lambda k: k["key"]))


def unique(n):
    if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "UniqueConstraint"):
        raise ValueError("not a UniqueConstraint: " + expr(n))
    kw = {k.arg: lit(k.value) for k in n.keywords}
    return dict(columns=[lit(a) for a in n.args], name=kw.get("name", ""))


def klass(n):
    c = dict(name=n.name, bases=[expr(b) for b in n.bases], table="", uniques=[], fields=[])
    for st in n.body:
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            k = st.targets[0].id
            if k == "__tablename__": c["table"] = lit(st.value)
            elif k == "__table_args__": c["uniques"] += [unique(x) for x in st.value.elts]
            else: c["fields"].append(column(k, st.value))
        elif isinstance(st, ast.Pass): pass
        else: raise ValueError("unexpected statement in class %s: %s" % (n.name, expr(st)))
    return c


def missing(tree):
    """names used at module or class level, or in functions, that nothing in the file defines before (module level: in order)"""
    known = set(dir(builtins)) | {"__name__"}
    bad = set()
    for st in tree.body:
        local = set()
        for x in ast.walk(st):
            if isinstance(x, ast.FunctionDef):
                local |= {a.arg for a in x.args.args} | {x.name}
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): local.add(x.id)
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in known | local: bad.add(x.id)
        if isinstance(st, (ast.Import, ast.ImportFrom)): known |= {a.asname or a.name for a in st.names}
        elif isinstance(st, ast.Assign): known |= {t.id for t in st.targets if isinstance(t, ast.Name)}
        elif isinstance(st, (ast.ClassDef, ast.FunctionDef)): known.add(st.name)
    return sorted(bad)


def module(name, text):
    tree = ast.parse(text)
    f = dict(name=name, imports=[], missing=missing(tree), tz=False, classes=[])
    for st in tree.body:
        if isinstance(st, ast.ImportFrom): f["imports"] += ["%s.%s" % (st.module, a.name) for a in st.names]
        elif isinstance(st, ast.Import): f["imports"] += [a.name for a in st.names]
        elif isinstance(st, ast.ClassDef):
            if st.name == "TZDateTime" and [expr(b) for b in st.bases] == ["TypeDecorator"]: f["tz"] = True
            else: f["classes"].append(klass(st))
        elif isinstance(st, ast.Assign) and expr(st.targets[0]) == "Base": pass
        else: raise ValueError("unexpected statement: " + expr(st))
    f["imports"].sort()
    return f


def read(path):
    if os.path.isdir(path):
        fs = sorted(os.listdir(path))
        out = []
        for x in fs:
            with open(os.path.join(path, x), "rb") as f: out.append(module(x, f.read().decode("utf-8")))
        return dict(single=False, files=out)
    with open(path, "rb") as f: return dict(single=True, files=[module(os.path.basename(path), f.read().decode("utf-8"))])
