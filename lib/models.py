"""Cases enumerated by the exhaustive models in spec/MC_*.tla, as scripts for the real tool."""
import copy, itertools, random
from octgen import col, table, schema, CANON
from core import put_schema, run

NAMES = ["%s_%s" % (a, b) for a in ("red", "blue", "grey", "pink", "gold", "teal", "navy", "lime")
         for b in ("fox", "owl", "elk", "bat", "cow", "ant", "hen", "yak")]


def chunks(l, n): return [l[i:i + n] for i in range(0, len(l), n)]


# ---- MC_Attr: every kind of column
def attr_tables(cols, width=12):
    """columns of the cases, spread over tables"""
    plain = [c for c in cols if not (c["pk"] or c["unique"] or c["autoinc"])]
    keyed = [c for c in cols if c["pk"] or c["unique"] or c["autoinc"]]
    ts = []
    for n, cs in enumerate(chunks(plain, width)):
        cs = [dict(copy.deepcopy(c), name=NAMES[i]) for i, c in enumerate(cs)]
        if n % 2 == 0: cs.insert(0, col("id", "int64", pk=True, notnull=True))
        ts.append(table("", cs))
    for n, c in enumerate(keyed):
        c = dict(copy.deepcopy(c), name="code_name")
        cs = [c, col("memo_text", "varchar", size=30)]
        if n % 3 == 1: cs.reverse()
        if n % 4 == 3 and c["pk"] and not c["autoinc"]: cs.insert(0, col("part_no", "int32", pk=True, notnull=True))
        if n % 4 == 2 and c["unique"]: cs.append(col("extra_key", "int32", unique=True, notnull=n % 8 < 4))
        ts.append(table("", cs))
    return ts


def attr_schemas(cols, per=6, **kw):
    out = []
    for ts in chunks(attr_tables(cols, **kw), per):
        for i, t in enumerate(ts): t["name"] = "t_" + NAMES[-1 - i]
        out.append(schema(ts, author="foo", name="db", version="1.0.0"))
    return out


def attr(scripts, accept=lambda c: True, deep=("quick", "deep")):
    """a MODELS entry; scripts(schema, n) -> scripts of one session each"""
    def replay(cases, tier):
        out = []
        for n, s in enumerate(attr_schemas([c for c in cases if accept(c)])):
            s["_n"] = n
            m = s.pop("_n")
            out += scripts(s, m)
        return out
    return dict(module="MC_Attr", cfg=dict(quick="MC_Attr_%s.cfg" % deep[0], thorough="MC_Attr_%s.cfg" % deep[1]), replay=replay)


def single(cmd, out, opts=lambda n: {}, dirs=()):
    """one run of cmd on the schema"""
    def f(s, n):
        return [dict(steps=[put_schema("in.json", s)] + [dict(mkdir=d) for d in dirs] + [run(cmd, ["in.json"], out, opts(n))])]
    return f


# ---- MC_Valid: valid and invalid columns
def valid(script, keep=lambda c: True):
    """script(column, n) -> script of one session"""
    def replay(cases, tier): return [script(c["col"], n) for n, c in enumerate(c for c in cases if keep(c["col"]))]
    return dict(module="MC_Valid", cfg="MC_Valid.cfg", replay=replay)


def around(c, n):
    """a table with c at some position among plain columns"""
    cs = [col("id", "int64", pk=True, notnull=True), col("memo", "varchar", size=20), col("total", "decimal")]
    cs.insert(n % 4, copy.deepcopy(c))
    return schema([table("t_red", [col("id", "int64")]), table("t_blue", cs)][:: 1 if n % 3 else -1], version="1.0.0", name="db", author="x")


# ---- MC_Diff: every pair of versions of a small table
def diffs(cmd, out, cfg=None, per=12):
    """many independent pairs in one pair of schemas"""
    def replay(cases, tier):
        scripts = []
        for n, cs in enumerate(chunks(cases, per)):
            def tabs(k):
                ts = [table("t_" + NAMES[i], copy.deepcopy(c[k]), desc="text %d" % i if i % 3 == 0 else "") for i, c in enumerate(cs)]
                return ts[::-1] if (n + (k == "new")) % 3 == 0 else ts
            o = dict(comments=n % 2 == 0, suffix="_uq" if n % 5 else "")
            steps = [put_schema("a.json", schema(tabs("old"), author="me", version="1")), put_schema("b.json", schema(tabs("new"), author="me", version="2"))]
            scripts.append(dict(steps=steps + [run(cmd, ["a.json", "b.json"], out, o)]))
        return scripts
    return dict(module="MC_Diff", cfg=cfg or dict(quick="MC_Diff_quick.cfg", thorough="MC_Diff_deep.cfg"), replay=replay)


# ---- MC_Change: every pair of definitions of a column
def changes(cmd, out, width=12, per=8):
    def replay(cases, tier):
        auto = [c for c in cases if c["new"][0]["autoinc"]]
        plain = [c for c in cases if not c["new"][0]["autoinc"]]
        tabs = [auto[i:i + 1] + p for i, p in enumerate(chunks(plain, width))] + [[c] for c in auto[-(-len(plain) // width):]]
        scripts = []
        for n, ts in enumerate(chunks(tabs, per)):
            def side(k): return schema([table("t_" + NAMES[i], [dict(copy.deepcopy(c[k][0]), name=NAMES[j]) for j, c in enumerate(cs)]) for i, cs in enumerate(ts)], author="me", version=k)
            o = dict(comments=n % 3 != 0, suffix="_uq" if n % 2 else "")
            scripts.append(dict(steps=[put_schema("a.json", side("old")), put_schema("b.json", side("new")), run(cmd, ["a.json", "b.json"], out, o)]))
        return scripts
    return dict(module="MC_Change", cfg=dict(quick="MC_Change_quick.cfg", thorough="MC_Change_deep.cfg"), replay=replay)


# ---- MC_Tables: tables that come, go, change and are renamed
def tables(cmd, out, part, per=4, comments=None):
    """several independent cases per session: their tables and columns have names of their own"""
    def own(ts, k):
        ts = copy.deepcopy(ts)
        for t in ts:
            t["name"] += "_" + "red blue grey pink gold teal".split()[k]
            for c in t["columns"]: c["name"] += "_%d" % k
        return ts
    def replay(cases, tier):
        scripts, by = [], {}
        for c in cases: by.setdefault(c["groups"], []).append(c)
        for g in sorted(by):
            cs = sorted(by[g], key=lambda c: hash_of(c))
            for n, ch in enumerate(chunks(cs, per)):
                def side(k):
                    ts = [t for i, c in enumerate(ch) for t in own(c[k], i)]
                    return schema(ts[::-1] if n % 2 else ts, author="me", version="1" if k == "old" else "2")
                o = dict(comments=comments if comments is not None else n % 3 != 0, suffix="_uq" if n % 4 else "", groups=g)
                scripts.append(dict(steps=[put_schema("a.json", side("old")), put_schema("b.json", side("new")), run(cmd, ["a.json", "b.json"], out, o)]))
        return scripts
    return dict(module="MC_Tables", cfg=dict(quick="MC_Tables_%s.cfg" % part, thorough="MC_Tables_%s_deep.cfg" % part), replay=replay)


def hash_of(c):
    import hashlib, json
    return hashlib.sha256(json.dumps(c, sort_keys=True).encode()).hexdigest()


# ---- MC_Names: every short identifier as a column and as a table
def names(script, width=12, per=4, tables=lambda n: True):
    """script(schema, n) -> script; the names of one table (and of the tables of one schema) stay distinct under every naming rule"""
    def replay(cases, tier):
        def key(n): return n.replace("_", "").lower()
        def groups(ns, width):
            out = []
            for n in sorted(ns, key=hash_of):
                for g in out:
                    if len(g) < width and key(n) not in {key(x) for x in g}: g.append(n); break
                else: out.append([n])
                out.sort(key=len)
            return out
        cols = groups(cases, width)
        types = ["int32", "varchar", "datetime", "boolean", "decimal", "int64"]
        def columns(ns):
            cs = [col("zz_key", "int64", pk=True, notnull=True)]
            for i, n in enumerate(ns):
                ty = types[i % len(types)]
                cs.append(col(n, ty, size=20 if ty == "varchar" else 0, notnull=i % 2 == 0, unique=i % 5 == 3))
            return cs
        scripts = []
        for n, ts in enumerate(groups([x for x in cases if tables(x)], per)):
            ts = [table(t, columns(cols[(n * per + i) % len(cols)]), group=["", "core", "shop"][(n + i) % 3]) for i, t in enumerate(ts)]
            scripts.append(script(schema(ts, version="1", name="db"), n))
        return scripts
    return dict(module="MC_Names", cfg=dict(quick="MC_Names_quick.cfg", thorough="MC_Names_deep.cfg"), replay=replay)


# ---- MC_Keys: every combination of keys
def keys(scripts, per=16, indexed=True):
    """scripts(schema, n) -> scripts"""
    def replay(cases, tier):
        out = []
        for n, cs in enumerate(chunks(sorted(cases, key=hash_of), per)):
            ts = [table("t_" + NAMES[i], copy.deepcopy(c["columns"]), indices=copy.deepcopy(c["indices"]), group=["", "core", "shop"][(n + i) % 3]) for i, c in enumerate(cs)]
            out += scripts(schema(ts[::-1] if n % 2 else ts, author="me", name="db", version="1"), n)
        return out
    return [dict(module="MC_Keys", cfg=c, replay=replay) for c in
            [dict(quick="MC_Keys_quick.cfg", thorough="MC_Keys_deep.cfg" if indexed else "MC_Keys_quick.cfg")] + ([dict(quick="MC_Keys_small.cfg", thorough="MC_Keys_small.cfg")] if indexed else [])]


# ---- MC_Text: every short text
def texts(scripts, accept=lambda s: True, width=10, per=5, members=True, defaults=True, meta=True):
    """scripts(schema, n) -> scripts; the texts are descriptions, default values, members of enumerations and the author"""
    def replay(cases, tier):
        ss = sorted((s for s in cases if accept(s)), key=hash_of)
        out, ts = [], []
        for n, part in enumerate(chunks(ss, width)):
            cs = []
            for i, s in enumerate(part):
                c = col(NAMES[i], "varchar", size=200, desc=s, notnull=i % 2 == 0)
                if defaults: c["default"] = part[i - 1]
                if members and i % 3 == 2: c.update(type="enum", size=0, values=[x for j, x in enumerate(part[:i]) if x.lower() not in {y.lower() for y in part[:j]}])
                if members and i % 3 == 2 and defaults: c["default"] = c["values"][-1]
                cs.append(c)
            ts.append(table("", cs, desc=part[n % len(part)], group=["", "core"][n % 2]))
        for n, part in enumerate(chunks(ts, per)):
            for i, t in enumerate(part): t["name"] = "t_" + NAMES[-1 - i]
            out += scripts(schema(part, author=part[0]["desc"] if meta else "me", name="db", version="1"), n)
        return out
    return dict(module="MC_Text", cfg=dict(quick="MC_Text_quick.cfg", thorough="MC_Text_deep.cfg"), replay=replay)


def rewords(cmd, out, accept=lambda s: True):
    """two versions that differ in their texts"""
    def replay(cases, tier):
        ss = sorted((s for s in cases if accept(s)), key=hash_of)
        scripts = []
        for n, part in enumerate(chunks(ss, 40)):
            def side(v):
                ts = []
                for m, p in enumerate(chunks(part, 10)):
                    cs = []
                    for i, s in enumerate(p):
                        o = p[(i + 1 + m) % len(p)]
                        # the description changes, the default changes, or both, or a text comes or goes
                        d, f = [((s, o), (s, s)), ((s, s), (s, o)), ((s, o), (o, s)), ((s, ""), (s, s)), (("", s), ("", o)), (("", ""), (s, "")), ((s, o), ("", ""))][(i + n) % 7]
                        cs.append(col(NAMES[i], "varchar", size=200, desc=d[v], default=f[v], notnull=(i + n) % 2 == 0))
                    if m % 3 == 2 and v: cs.append(col("extra_text", "varchar", size=200, desc=p[0], default=p[-1]))
                    if m % 3 == 1: cs[0]["name"] = ["old_name", "new_name"][v]
                    ts.append(table("t_" + NAMES[-1 - m], cs, desc=p[0] if m % 2 or not v else p[-1]))
                return schema(ts, author=part[0], name="db", version=str(v + 1))
            scripts.append(dict(steps=[put_schema("a.json", side(0)), put_schema("b.json", side(1)), run(cmd, ["a.json", "b.json"], out, dict(comments=n % 3 > 0))]))
        return scripts
    return dict(module="MC_Text", cfg=dict(quick="MC_Text_quick.cfg", thorough="MC_Text_deep.cfg"), replay=replay)


# ---- MC_Ddl: every spelling of a declaration
def ddl(script, width=12, per=4):
    """script(text, statements, n) -> script"""
    def replay(cases, tier):
        cs = sorted(cases, key=hash_of)
        keyed = [c for c in cs if not c["keys"] and (c["stmt"]["pk"] or c["stmt"]["uqs"])]
        plain = [c for c in cs if not c["keys"] and not (c["stmt"]["pk"] or c["stmt"]["uqs"])]
        tabs = chunks(plain, width) + [[c] for c in keyed] + [[c] for c in cs if c["keys"]]
        # wide tables and small ones together
        wide = len(chunks(plain, width))
        small = tabs[wide:]
        parts = [tabs[:wide][i::max(1, wide // per)] for i in range(max(1, wide // per))]
        for i, t in enumerate(small): parts[i % len(parts)].append(t)
        out = []
        for n, part in enumerate(parts):
            texts_, stmts = [], []
            for i, cs in enumerate(part):
                st = copy.deepcopy(cs[0]["stmt"])
                st["table"] = "t_" + NAMES[i % len(NAMES)] + (str(i // len(NAMES)) if i >= len(NAMES) else "")
                if cs[0]["keys"]: body = ["`a` int", "b varchar(20)", "`c` datetime", cs[0]["text"]]
                else:
                    names = [NAMES[j] for j in range(len(cs))]
                    st["cols"] = [dict(c["stmt"]["cols"][0], name=m) for m, c in zip(names, cs)]
                    if st["pk"]: st["pk"] = [names[0]]
                    if st["uqs"]: st["uqs"] = [dict(name=names[0], cols=[names[0]])]
                    body = [("`%s` %s" if (j + n) % 2 else "%s %s") % (m, c["text"]) for j, (m, c) in enumerate(zip(names, cs))]
                texts_.append("CREATE TABLE %s (\n  %s\n)%s;" % (("`%s`" if (i + n) % 2 else "%s") % st["table"], ",\n  ".join(body), ["", " ENGINE=InnoDB", " DEFAULT CHARSET=utf8"][(n + i) % 3]))
                stmts.append(st)
            out.append(script("\n".join(texts_), stmts, n))
        return out
    return dict(module="MC_Ddl", cfg=dict(quick="MC_Ddl_quick.cfg", thorough="MC_Ddl_deep.cfg"), replay=replay)


# ---- MC_Filter: every short list of groups
def filters(cmds, diffs):
    """one schema with two tables in every group and references in between, through every command"""
    def world(n, v):
        gs = ["", "core", "cor", "corex", "Core", "shop"]
        ts = []
        for i in range(12):
            cs = [col("id", "int64", pk=True, notnull=True), col("memo", "varchar", size=20 + v * (i % 3), unique=i % 2 == 0), col("price", "decimal", notnull=i % 3 == 0)]
            for j in ((i + 1 + n) % 12, (i * 5 + 3) % 12):
                if j != i and "r_%s" % NAMES[j] not in [c["name"] for c in cs]:
                    cs.append(col("r_" + NAMES[j], "int64", ref=[dict(table="t_" + NAMES[j], column="id", relationship=["n:1", "1:n", "1:1"][(i + j) % 3])]))
            if v and i % 4 == 1: cs.append(col("extra", "int32"))
            ts.append(table("t_" + NAMES[i], cs, group=gs[(i + n) % 6]))
        if v and n % 2: ts.append(table("t_new", [col("id", "int64", pk=True)], group=gs[n % 6]))
        return schema(ts[::-1] if n % 3 else ts, author="me", name="db", version=str(v + 1))
    def replay(cases, tier):
        out = []
        for n, l in enumerate(sorted(cases, key=lambda l: (len(l), l))):
            o = dict(groups=",".join(l))
            steps = [put_schema("a.json", world(n, 0)), put_schema("b.json", world(n, 1)), dict(mkdir="kt")]
            steps += [run(c, ["a.json"], f, o) for c, f in cmds] + [run(c, ["a.json", "b.json"], f, o) for c, f in diffs]
            out.append(dict(steps=steps))
        return out
    return dict(module="MC_Filter", cfg=dict(quick="MC_Filter_quick.cfg", thorough="MC_Filter_deep.cfg"), replay=replay)


# ---- MC_Tags: arrangements of references x numbering options
def tags(width=40):
    def replay(cases, tier):
        by = {}
        for c in cases: by.setdefault((c["opt"]["tagStart"], c["opt"]["tagDecr"]), []).append(c["cols"])
        def ref(k): return [] if k == "none" else [dict(table=k + "_t", column="id", relationship="1:n" if k == "many" else "n:1")]
        out = []
        others = [table(k + "_t", [col("id", "int64", pk=True)], group="out" if k == "out" else "in") for k in ("one", "two", "many", "out")]
        for (st, de), shapes in sorted(by.items()):
            for n, part in enumerate(chunks(sorted(shapes), width)):
                ts = [table("m_" + NAMES[i], [col("c_" + NAMES[j], ["int64", "varchar", "datetime"][(i + j) % 3] if k == "none" else "int64", size=20 if k == "none" and (i + j) % 3 == 1 else 0, ref=ref(k)) for j, k in enumerate(sh)], group="in")
                      for i, sh in enumerate(part)]
                o = dict(groups="in", tagStart=st, tagDecr=de)
                out.append(dict(steps=[put_schema("a.json", schema(ts + copy.deepcopy(others), version="1", name="db")), run("generate-pb", ["a.json"], "out.proto", o)]))
        return out
    return dict(module="MC_Tags", cfg=dict(quick="MC_Tags_quick.cfg", thorough="MC_Tags_deep.cfg"), replay=replay)


# ---- MC_Refs: every small graph of references
def refs(scripts, twins=True, per=5):
    """scripts(schema, n) -> scripts; twins: a table may refer to another one twice"""
    def ok(c):
        seen = [(r["slot"][0], r["to"]) for r in c["refs"]]
        return twins or len(set(seen)) == len(seen)
    def own(s, k):
        s = copy.deepcopy(s)
        for t in s["tables"]:
            t["name"] += "_" + NAMES[k]
            if k % 2: t["group"] += str(k)
            for c in t["columns"]:
                for r in c["ref"]: r["table"] += "_" + NAMES[k]
        return s["tables"]
    def replay(cases, tier):
        out = []
        for n, cs in enumerate(chunks(sorted((c for c in cases if ok(c)), key=hash_of), per)):
            out += scripts(schema([t for k, c in enumerate(cs) for t in own(c["schema"], k)], author="me", name="db", version="1"), n)
        return out
    return dict(module="MC_Refs", cfg=dict(quick="MC_Refs_quick.cfg", thorough="MC_Refs_deep.cfg"), replay=replay)


# ---- MC_Life: whole histories of a workspace
def convertible(rng):
    """a schema that both DDL and workbooks can express"""
    from octgen import Gen
    s = Gen(rng, types=[t for t in CANON if t not in ("geometry", "point", "enum", "set")], groups=["", "core", "shop"], commas=False, specials=False, fns={"datetime": ["CURRENT_TIMESTAMP", "NOW"]}).schema()
    for t in s["tables"]:
        for c in t["columns"]:
            if c["type"] in ("varchar", "varbinary") and c["size"] == 0: c["size"] = 20
            c["default"] = c["default"].strip(); c["onupdate"] = c["onupdate"].strip()
    return s


def life(keep=lambda h: True, chain=False, most=12000):
    """the histories of the model; every other one starts from random schemas instead of those of the model"""
    import inputs
    leaf = {"generate-plantuml": "leaf.puml", "diff-md": "leaf.md"}
    def replay(cases, tier):
        own = [c["schemas"] for c in cases if "schemas" in c][0]
        hists = sorted((c["hist"] for c in cases if "hist" in c and keep(c["hist"])), key=hash_of)
        scripts = []
        for n, h in enumerate(hists[:most]):
            rng = random.Random(n)
            ss = own if n % 2 else [convertible(rng), convertible(rng)]
            steps = [put_schema("a.json", ss[0])]
            for st in h:
                if st["op"] == "put": steps.append(put_schema(st["file"], ss[1]))
                elif st["op"] == "rm": steps.append(dict(rm=st["file"]))
                else:
                    r = run(st["cmd"], st["ins"], leaf.get(st["cmd"], st["out"]), {k: v for k, v in st["opts"].items() if k != "none" and v != []}, remember=True, judge=st["cmd"] not in leaf, okind=inputs.OKIND(st["cmd"]))
                    if "excludes" in r["opts"]: r["opts"] = dict(r["opts"], excludes=[])
                    steps.append(r)
            scripts.append(dict(steps=steps))
        return scripts
    parts = ["chain"] if chain else ["chain", "quick"]
    return [dict(module="MC_Life", cfg=dict(quick="MC_Life_%s.cfg" % p, thorough="MC_Life_%s.cfg" % dict(chain="chain_deep", quick="deep")[p]), replay=replay) for p in parts]
