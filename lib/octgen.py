"""Seeded generators of octopus schemas (abstract records, the same records the TLA+ model uses)."""
import json, random

CANON = ["binary", "bit", "blob16", "blob24", "blob32", "blob8", "boolean", "char", "date", "datetime",
         "decimal", "double", "enum", "float", "geometry", "int16", "int24", "int32", "int64", "int8", "json",
         "point", "set", "text16", "text24", "text32", "text8", "time", "varbinary", "varchar", "year"]
SYN = {"string": "varchar", "tinyint": "int8", "smallint": "int16", "mediumint": "int24", "int": "int32",
       "integer": "int32", "bigint": "int64", "long": "int64", "numeric": "decimal", "real": "double",
       "timestamp": "datetime", "tinyblob": "blob8", "blob": "blob16", "mediumblob": "blob24",
       "longblob": "blob32", "tinytext": "text8", "text": "text16", "mediumtext": "text24", "longtext": "text32"}
RSYN = {}
for k, v in SYN.items(): RSYN.setdefault(v, []).append(k)
INTS = ["int8", "int16", "int24", "int32", "int64"]
STRS = ["char", "varchar"]
TEXTS = ["text8", "text16", "text24", "text32"]
BLOBS = ["blob8", "blob16", "blob24", "blob32"]
NUMS = INTS + ["decimal", "double", "float"]

WORDS = ["user", "account", "profile", "order", "item", "product", "price", "amount", "email", "address", "city",
         "status", "code", "name", "title", "team", "member", "role", "permission", "created", "updated", "token",
         "session", "device", "score", "level", "image", "content", "comment", "post", "tag", "category", "stock",
         "invoice", "payment", "coupon", "event", "log", "history", "message", "channel", "region", "country",
         "zip", "phone", "memo", "count", "total", "rate", "first", "last", "main", "sub", "parent", "child", "data"]
# words that are reserved in MySQL (or would need quoting there) never stand alone as identifiers
SQL_RESERVED = set("""add all alter analyze and as asc before between bigint binary blob both by call cascade case change
char character check collate column condition constraint continue convert create cross current_date current_time
current_timestamp current_user cursor database databases day_hour dec decimal declare default delayed delete desc
describe distinct div double drop dual each else elseif enclosed escaped exists exit explain false fetch float for force
foreign from fulltext generated grant group grouping groups having high_priority if ignore in index infile inner inout
insensitive insert int integer interval into is iterate join key keys kill leading leave left like limit linear lines
load localtime lock long longblob longtext loop match mediumblob mediumint mediumtext mod modifies natural not null
numeric of on optimize option optionally or order out outer outfile over partition precision primary procedure purge
range rank read reads real references regexp release rename repeat replace require resignal restrict return revoke right
rlike rows schema schemas select sensitive separator set show signal smallint spatial specific sql ssl starting stored
straight_join system table terminated then tinyblob tinyint tinytext to trailing trigger true undo union unique unlock
unsigned update usage use using values varbinary varchar varcharacter varying virtual when where while window with write
xor year_month zerofill recursive row_number lead lag last_value first_value ntile nth_value percent_rank cume_dist
dense_rank empty except function json_table lateral of system""".split())
# reserved by a target language; kept out unless a check asks for them
LANG_RESERVED = set("""and as assert break class continue def del elif else except false finally for from global if import
in is lambda none nonlocal not or pass raise return true try while with yield type func var val fun object when this
super null package interface const go map range select struct switch case chan default defer fallthrough goto
message enum option service rpc metadata registry oneof repeated reserved stream id_""".split())


def col(name, type, **kw):
    c = dict(name=name, type=type, desc="", size=0, scale=0, notnull=False, pk=False, unique=False, autoinc=False,
             default="", onupdate="", values=[], ref=[])
    c.update(kw)
    return c


def table(name, columns, **kw):
    t = dict(name=name, columns=columns, desc="", group="", className="", indices=[])
    t.update(kw)
    return t


def schema(tables, **kw):
    s = dict(author="", name="", version="", tables=tables)
    s.update(kw)
    return s


DEFAULTS = dict(
    types=CANON, max_tables=5, min_tables=1, max_cols=8, min_cols=1,
    groups=["", "common", "core", "corex", "shop", "Core"], p_group=0.6,
    p_desc=0.5, p_pk=0.85, p_cpk=0.2, p_unique=0.2, p_autoinc=0.4, p_default=0.35, p_fn=0.3, p_onupdate=0.15,
    p_ref=0.25, p_index=0.4, p_class=0.2, p_notnull=0.5, p_scale=0.5, p_size=0.8,
    quotes=True, unicode=True, specials=True, camel=0.08, digits=0.1, prefix=0.3, prefixes=["tb_", "t_", "x_"],
    reserved=False, fns=None, self_ref=True, dangling=0.04, ref_rel=["n:1", "1:1", "1:n", ""], bool_literals=["true", "false", "1", "0", "true", "false", "TRUE", "True", "FALSE", "False"],
    text_default=False, autoinc_any=False, sizes=None, notnull_pk=None, meta=True, upper_first=0.0, double_us=0.0,
    commas=True, p_noname=0.0, blanks=False, lines=False, p_long=0.004, p_big=0.02, tails=["_uq", "_UK", "_unique"], p_tail=0.06, p_id=0.12, int_size=0.25, long_names=0.05, autoinc_pk_only=False, unique_pk=0.05, colons=True,
)


class Gen:
    def __init__(self, rng, **kw):
        self.r = rng
        self.o = dict(DEFAULTS)
        for k in kw:
            assert k in self.o, k
        self.o.update(kw)

    # ---- names
    def ident(self, used, table=False, plain=False):
        r, o = self.r, self.o
        while True:
            n = r.choices([1, 2, 3, 5], [5, 6, 2, o["long_names"] * 10])[0]
            ws = [r.choice(WORDS) for _ in range(n)]
            if r.random() < o["digits"]:
                i = r.randrange(len(ws)); ws[i] += str(r.choice([1, 2, 3, 10, 64]))
            sep = "__" if r.random() < o["double_us"] else "_"
            s = sep.join(ws)
            if table and r.random() < o["prefix"]: s = r.choice(o["prefixes"]) + s
            if not (table or plain) and r.random() < o["p_id"]:              # names around "id": user_id, id_card, paid, ids, ...
                s = r.choice([s + "_id", s + "_id", "id_" + s, "id_" + s + "_id", s + "_ids", "id" + s, "valid_" + s, s + "_id_no", s + "_uuid", s + "_valid"])
            if table and o["tails"] and r.random() < o["p_tail"]: s = s + r.choice(o["tails"])
            if r.random() < o["camel"]:
                ws = [w for w in s.split("_") if w]
                s = ws[0] + "".join(w.capitalize() for w in ws[1:])
                if r.random() < 0.3: s = s[0].upper() + s[1:]
            if s.lower() in {u.lower() for u in used}: continue
            if not o["reserved"] and (s.lower() in SQL_RESERVED or s.lower() in LANG_RESERVED): continue
            # distinct after dropping case and underscores: "ordinary" identifiers
            k = s.replace("_", "").lower()
            if k in {u.replace("_", "").lower() for u in used}: continue
            used.append(s)
            return s

    def text(self, maxw=4):
        r, o = self.r, self.o
        ws = [r.choice(WORDS) for _ in range(r.randint(1, maxw))]
        s = r.choice([" ", " ", "-", "/"]).join(ws)
        if o["commas"] and r.random() < 0.1: s += r.choice([", " + r.choice(WORDS), ",x"])
        if o["colons"] and r.random() < 0.1: s += r.choice([": ", "; ", " = ", " # ", " (x)", " [y]", " {z}", " 100%", " a&b", " <b>", "?!"]) + r.choice(WORDS)
        if o["quotes"] and r.random() < 0.15: s += r.choice(["'s", " 'q'", ' "dq"', " back\\slash", "`bt`", "''"])
        if o["unicode"] and r.random() < 0.12: s += r.choice(["\uc0ac\uc6a9\uc790", " \u00e9t\u00e9", " \u540d\u524d"])
        if r.random() < 0.1: s = s.capitalize()
        if o["blanks"] and r.random() < 0.06: s = r.choice([" " + s, s + " ", "  " + s + "  ", s + "\t", s.replace(" ", "  ")])
        if o["lines"] and r.random() < 0.05: s = s.replace(" ", "\n", 1) if " " in s else s + "\n" + self.word()
        if r.random() < o["p_long"]: s = " ".join([s] + [r.choice(WORDS) for _ in range(r.choice([15, 50, 180]))])
        return s

    def word(self):
        return self.r.choice(WORDS)

    # ---- columns
    def literal(self, c):
        r, o, t = self.r, self.o, c["type"]
        if t in STRS:
            s = self.text(2) if r.random() < 0.5 else self.word()
            if r.random() < 0.15: s = r.choice(["0", "1", "true", "null", "2020-01-01", "N/A", "-"])
            return s
        if t == "int64" and r.random() < 0.1: return r.choice(["9223372036854775807", "-9223372036854775808", "2147483648", "9007199254740993"])
        if t in ("int32", "int64") and r.random() < 0.1: return r.choice(["2147483647", "-2147483648", "65536", "1000000"])
        if t in INTS: return str(r.choice([0, 1, -1, 5, 10, 42, 100, 127, -100]))
        if t in ("decimal", "double", "float"):
            if t == "decimal" and r.random() < 0.2: return r.choice(["12345678901234567.89", "0.000001", "999999999999", "1234567890.123456789", "-0.1", "90071992547409931", "0.30", "1000000"])
            return r.choice(["0", "1", "0.5", "10.25", "-3.75", "100", "-1", "123.456"])
        if t == "boolean": return r.choice(o["bool_literals"])
        if t == "date": return r.choice(["2020-01-31", "1999-12-01"])
        if t == "datetime": return r.choice(["2020-01-31 10:20:30", "1999-12-01 00:00:00"])
        if t == "time": return r.choice(["10:20:30", "00:00:00"])
        if t == "year": return r.choice(["2020", "1999"])
        if t == "bit": return r.choice(["1", "0"])
        if t == "enum": return r.choice(c["values"])
        if t == "set": return r.choice(c["values"])
        if t in TEXTS and o["text_default"]: return self.word()
        return ""

    FNS = {"datetime": ["CURRENT_TIMESTAMP", "CURRENT_TIMESTAMP", "NOW"], "date": ["CURRENT_DATE"], "time": ["CURRENT_TIME"],
           "varchar": ["UUID", "USER"], "char": ["UUID"], "int64": ["UUID_SHORT"], "decimal": ["RAND"], "double": ["RAND"]}

    def fn(self, c):
        fns = self.o["fns"] if self.o["fns"] is not None else self.FNS
        l = fns.get(c["type"], [])
        return "fn::" + self.r.choice(l) if l else ""

    def size(self, c):
        r, o, t = self.r, self.o, c["type"]
        if t in ("varchar", "varbinary") and r.random() < 0.08: return r.choice([256, 4096, 21844, 32767, 32768, 40000, 65534, 65535])
        if t == "varchar": return r.choice([1, 10, 20, 40, 255, 255, 1000, 16383])
        if t == "char": return r.choice([1, 2, 6, 36, 255])
        if t in ("binary", "varbinary"): return r.choice([1, 8, 16, 255])
        if t == "bit": return r.choice([1, 2, 8, 64])
        if t in INTS and r.random() < o["int_size"]:
            return r.choice([2, 3, 4, 10, 11, 20])
        return None

    def retype(self, c):
        """sets size, scale, values for c['type']"""
        r, o, t = self.r, self.o, c["type"]
        c["size"] = c["scale"] = 0; c["values"] = []
        if t == "decimal" or (t in ("double", "float") and r.random() < 0.6):
            if r.random() < o["p_size"]:
                c["size"] = r.choice([5, 8, 10, 20, 38, 65] if t == "decimal" else [7, 10, 20])
                if r.random() < o["p_scale"] or t != "decimal": c["scale"] = r.choice([1, 2, 3, 5] if c["size"] < 38 else [2, 10, 30])
            elif r.random() < 0.25: c["scale"] = r.choice([1, 2, 4])      # no database knows a scale without a precision
        elif t in ("enum", "set"):
            n = r.choice([1, 2, 3, 5]) if r.random() < 0.95 else 64
            vs = []
            while len(vs) < n:
                v = self.word() + (str(len(vs)) if n > 5 else "")
                if o["quotes"] and r.random() < 0.05: v += r.choice(["'s", "\\", '"'])
                if r.random() < 0.1: v = r.choice(["1", "2", "Y", "N", "A B", "x-y"])
                if v.lower() not in [x.lower() for x in vs]: vs.append(v)
            c["values"] = vs
        else:
            if t in ("varchar", "char", "binary", "varbinary", "bit") and r.random() < max(o["p_size"], 0.0) or t in INTS or t == "varbinary":
                s = self.size(c)
                if s is not None: c["size"] = s

    def column(self, used):
        r, o = self.r, self.o
        c = col(self.ident(used), r.choice(o["types"]))
        if r.random() < 0.35:
            pool = [t for t in ("varchar", "int64", "int32", "datetime", "boolean", "decimal") if t in o["types"]]
            if pool: c["type"] = r.choice(pool)
        self.retype(c)
        if r.random() < o["p_desc"]: c["desc"] = self.text()
        c["notnull"] = r.random() < o["p_notnull"]
        self.redefault(c)
        if c["type"] == "datetime" and r.random() < o["p_onupdate"] * 3: c["onupdate"] = "fn::CURRENT_TIMESTAMP"
        elif c["type"] in STRS and r.random() < o["p_onupdate"] and o["specials"]: c["onupdate"] = self.word()
        if r.random() < o["p_unique"] and c["type"] not in TEXTS + BLOBS + ["json", "geometry", "point"]: c["unique"] = True
        return c

    def redefault(self, c):
        r, o = self.r, self.o
        c["default"] = ""
        if r.random() < o["p_default"]:
            if r.random() < o["p_fn"]: c["default"] = self.fn(c)
            else: c["default"] = self.literal(c)

    def mkpk(self, cols):
        r, o = self.r, self.o
        ok = [c for c in cols if c["type"] in INTS + STRS + ["date", "datetime", "decimal", "boolean", "time", "year"]]
        if r.random() >= o["p_pk"] or not ok: return
        k = 1
        if r.random() < o["p_cpk"]: k = r.choice([2, 2, 2, 2, 3, 3, 3, 4, 6])
        ks = r.sample(ok, min(k, len(ok)))
        if len(ks) == 1 and r.random() < 0.7:
            ks = [ok[0]]
        for c in ks:
            c["pk"] = True
            if r.random() < 0.8 if o["notnull_pk"] is None else o["notnull_pk"]: c["notnull"] = True
            if r.random() > o["unique_pk"]: c["unique"] = False
        ints = [c for c in ks if c["type"] in INTS]
        if ints and r.random() < o["p_autoinc"]:
            c = r.choice(ints); c["autoinc"] = True; c["default"] = ""; c["onupdate"] = ""

    def table(self, tused, gused=None):
        r, o = self.r, self.o
        used = []
        n = r.randint(o["min_cols"], o["max_cols"])
        if r.random() < o["p_big"]: n = r.choice([12, 20, 33])
        cols = [self.column(used) for _ in range(n)]
        if r.random() < 0.5 and "int64" in o["types"]:
            cols.insert(0, col("id", "int64", notnull=r.random() < 0.7, desc=self.text() if r.random() < 0.4 else ""))
            used.append("id")
        self.mkpk(cols)
        if not o["autoinc_pk_only"] and not any(c["autoinc"] for c in cols) and r.random() < 0.05:
            ints = [c for c in cols if c["type"] in INTS]
            if ints:
                c = r.choice(ints); c["autoinc"] = True; c["unique"] = True; c["default"] = ""
        t = table(self.ident(tused, True), cols)
        if r.random() < o["p_group"]: t["group"] = r.choice(o["groups"])
        if r.random() < o["p_desc"]: t["desc"] = self.text()
        if r.random() < o["p_class"]:
            used2 = []
            t["className"] = "".join(w.capitalize() for w in self.ident(used2, plain=True).split("_"))
            t["className"] = t["className"][0].upper() + t["className"][1:]
        iused = []
        while r.random() < o["p_index"] and len(t["indices"]) < 3:
            t["indices"].append(dict(name=self.index_name(iused, t), columns=self.index_columns(cols)))
            if o.get("p_noname") and r.random() < o["p_noname"]: t["indices"][-1]["name"] = ""
        return t

    def index_name(self, iused, t):
        r = self.r
        n = r.choice(["idx_", "idx_", "idx_", "IX_", "ix", "I_", "uq_"]) + self.ident(iused)
        if r.random() < 0.06: n = n.upper()
        if r.random() < 0.05: n = "idx_" + t["name"] + str(len(iused))
        return n

    def index_columns(self, cols):
        """any columns; now and then the key columns, unique columns or the columns of another index in another order"""
        r = self.r
        x = r.random()
        pk = [c["name"] for c in cols if c["pk"]]; uq = [c["name"] for c in cols if c["unique"]]
        if x < 0.06 and pk: return pk
        if x < 0.12 and uq: return uq
        if x < 0.16 and len(pk) > 1: return pk[::-1]
        return [c["name"] for c in r.sample(cols, min(len(cols), r.choice([1, 1, 1, 1, 2, 2, 3, 3, 5])))]

    def addrefs(self, s):
        r, o = self.r, self.o
        for t in s["tables"]:
            for c in t["columns"]:
                if r.random() < o["p_ref"]:
                    ts = s["tables"] if o["self_ref"] else [x for x in s["tables"] if x is not t]
                    if not ts: continue
                    tt = r.choice(ts)
                    cc = [x for x in tt["columns"] if x["pk"]] or tt["columns"]
                    cc = r.choice(cc)
                    if cc is c: continue
                    c["ref"] = [dict(table=tt["name"], column=cc["name"], relationship=r.choice(o["ref_rel"]))]
                    if r.random() < o["dangling"]: c["ref"][0]["table"] = r.choice(["elsewhere", "old_users", tt["name"] + "_archive", tt["name"][:-1] or "x", tt["name"].upper() + "_X"])

    def schema(self):
        r, o = self.r, self.o
        tused = []
        n = r.randint(o["min_tables"], o["max_tables"])
        if r.random() < o["p_big"] / 2: n = r.choice([11, 13, 27])
        s = schema([self.table(tused) for _ in range(n)])
        # class names must be unique
        seen = set()
        for t in s["tables"]:
            if t["className"] in seen: t["className"] = ""
            if t["className"]: seen.add(t["className"])
        if o["meta"]:
            if r.random() < 0.6: s["author"] = r.choice(["foo", "Lechuck Roh", "a.b@c"])
            if r.random() < 0.6: s["name"] = r.choice(["db", "shop", "my schema"])
            if r.random() < 0.8: s["version"] = r.choice(["1.0.0", "2.1", "v3", "0.0.1-rc"])
        self.addrefs(s)
        return s


# ---- concrete octopus files
def spell_type(t, rng):
    if rng is None: return t
    if t in RSYN and rng.random() < 0.5: t = rng.choice(RSYN[t])
    x = rng.random()
    if x < 0.15: t = t.upper()
    elif x < 0.25: t = t.capitalize()
    return t


def to_octopus(s, rng=None, shuffle=False, sparse=True):
    """abstract schema -> JSON-able octopus document; rng: vary the spelling"""
    def keep(d, k, v):
        if sparse and not v and (rng is None or rng.random() < 0.9): return
        d[k] = v
    tables = []
    for t in s["tables"]:
        cols = []
        for c in t["columns"]:
            d = dict(name=c["name"], type=spell_type(c["type"], rng))
            for k in ("desc", "size", "scale", "notnull", "pk", "unique", "autoinc", "default", "onupdate", "values"):
                keep(d, k, c[k])
            if c["ref"]: d["ref"] = {k: v for k, v in c["ref"][0].items() if v}
            if rng is not None and rng.random() < 0.3:
                ks = list(d); rng.shuffle(ks); d = {k: d[k] for k in ks}
            cols.append(d)
        d = dict(name=t["name"], columns=cols)
        for k in ("desc", "group", "className", "indices"): keep(d, k, t[k])
        tables.append(d)
    if shuffle: rng.shuffle(tables)
    d = {}
    for k in ("author", "name", "version"): keep(d, k, s[k])
    d["tables"] = tables
    return d


def dump(doc, rng=None):
    if rng is None: return json.dumps(doc, indent=2)
    return json.dumps(doc, indent=rng.choice([None, 1, 2, 4, "\t"]), ensure_ascii=rng.random() < 0.5)


def from_octopus(doc):
    """octopus JSON document -> abstract schema record (missing members take their defaults)"""
    def st(x): return x if isinstance(x, str) else ("" if x is None else "<<%s>>" % json.dumps(x))
    def nu(x): return x if isinstance(x, int) and not isinstance(x, bool) else 0 if x is None else -999
    def bo(x): return bool(x)
    out = schema([])
    for k in ("author", "name", "version"): out[k] = st(doc.get(k))
    for t in doc.get("tables") or []:
        cs = []
        for c in t.get("columns") or []:
            ref = c.get("ref")
            cs.append(col(st(c.get("name")), st(c.get("type")), desc=st(c.get("desc")), size=nu(c.get("size")), scale=nu(c.get("scale")),
                          notnull=bo(c.get("notnull")), pk=bo(c.get("pk")), unique=bo(c.get("unique")), autoinc=bo(c.get("autoinc")),
                          default=st(c.get("default")), onupdate=st(c.get("onupdate")), values=[st(v) for v in c.get("values") or []],
                          ref=[dict(table=st(ref.get("table")), column=st(ref.get("column")), relationship=st(ref.get("relationship")))] if ref else []))
        out["tables"].append(table(st(t.get("name")), cs, desc=st(t.get("desc")), group=st(t.get("group")), className=st(t.get("className")),
                                   indices=[dict(name=st(i.get("name")), columns=[st(x) for x in i.get("columns") or []]) for i in t.get("indices") or []]))
    return out
