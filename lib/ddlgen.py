"""Random CREATE TABLE scripts: (text, abstract statements).  The abstract side is built alongside the text,
not parsed back from it, so that the reading of a spelling is independent of lib/proj_mysql.py."""
from octgen import Gen, WORDS, SQL_RESERVED

INTB = {"tinyint": "tinyint", "smallint": "smallint", "mediumint": "mediumint", "int": "int", "integer": "int", "bigint": "bigint"}
NONE = dict(k="none", v="")


class Ddl:
    def __init__(self, rng, **kw):
        self.r = rng
        self.g = Gen(rng, **kw)

    def kw(self, s):
        r = self.r
        return s.upper() if self.upper else s.lower() if r.random() < 0.8 else s.capitalize()

    def idt(self, s):
        if self.bq == 2 or (self.bq == 1 and self.r.random() < 0.5): return "`%s`" % s
        return s

    def string(self, s):
        r = self.r
        q = "'" if r.random() < 0.85 else '"'
        out = s.replace("\\", "\\\\")
        out = out.replace(q, q + q if r.random() < 0.6 else "\\" + q)
        return q + out + q

    def type(self):
        """-> (text, type, class)"""
        r = self.r
        k = r.choice(["int", "int", "int", "str", "str", "str", "dec", "float", "date", "text", "blob", "enum", "set", "bit", "bin", "json", "year", "bool"])
        post = ""
        if k == "int":
            w = r.choice(list(INTB)); args = []
            if r.random() < 0.4: args = [str(r.choice([1, 2, 3, 4, 10, 11, 20]))]
            if r.random() < 0.2: post = " " + self.kw("unsigned") + (" " + self.kw("zerofill") if r.random() < 0.2 else "")
            base = INTB[w]
            if not args and not post and r.random() < 0.05: w = {"tinyint": "int1", "smallint": "int2", "mediumint": "int3", "int": "int4", "bigint": "int8"}[base]
        elif k == "str":
            w, base = r.choice([("varchar", "varchar")] * 5 + [("char", "char"), ("character", "char"), ("nvarchar", "varchar"), ("national varchar", "varchar"), ("character varying", "varchar")])
            args = [str(r.choice([1, 6, 20, 40, 255, 1000, 16383]))] if base == "varchar" or r.random() < 0.8 else []
            if base == "char" and args: args = [str(min(255, int(args[0])))]
            if w in ("varchar", "char") and r.random() < 0.2:
                post = " " + r.choice(["CHARACTER SET utf8", "COLLATE utf8_bin", "CHARSET utf8mb4 COLLATE utf8mb4_general_ci", "CHARACTER SET latin1"])
                if r.random() < 0.2: post = " " + self.kw("binary")
                elif r.random() < 0.2:                         # a string type of bytes
                    post = " " + self.kw("character set binary")
                    base = {"char": "binary", "varchar": "varbinary"}[base]
        elif k == "dec":
            w = r.choice(["decimal", "numeric", "dec", "fixed"]); base = "decimal"
            args = r.choice([[], ["10"], ["10", "3"], ["20", "5"], ["5", "0"], ["38", "10"]])
            if w == "fixed" and r.random() < 0.7: w = "decimal"
            if r.random() < 0.1: post = " " + self.kw("unsigned")
        elif k == "float":
            w, base = r.choice([("float", "float"), ("double", "double"), ("real", "double"), ("double precision", "double")])
            args = r.choice([[], ["10", "3"], ["20", "5"]])
            if w == "float" and not args and r.random() < 0.3:      # a precision in bits selects the type
                n = r.choice([1, 7, 24, 25, 53]); w, base = "float(%d)" % n, "float" if n < 25 else "double"
        elif k == "date":
            w = base = r.choice(["date", "datetime", "datetime", "timestamp", "time"])
            args = [str(r.choice([3, 6]))] if base != "date" and r.random() < 0.2 else []
        elif k == "text":
            w = base = r.choice(["tinytext", "text", "mediumtext", "longtext"]); args = []
            if base == "text" and r.random() < 0.1: args = ["500"]
            if base == "text" and r.random() < 0.05:      # MySQL takes the smallest type that holds that many bytes
                n = r.choice([65536, 70000, 1 << 20, 16777215, 16777216, 1 << 30])
                w, base = "text(%d)" % n, "mediumtext" if n < 1 << 24 else "longtext"; args = []
            if r.random() < 0.2: post = " " + r.choice(["CHARACTER SET utf8", "COLLATE utf8_bin"])
            elif r.random() < 0.05: w, base, args = r.choice(["long", "long varchar"]), "mediumtext", []
            elif r.random() < 0.05: post, base = " " + self.kw("character set binary"), base.replace("text", "blob"); args = args if w == "text" else []
        elif k == "blob":
            w = base = r.choice(["tinyblob", "blob", "mediumblob", "longblob"]); args = []
            if base == "blob" and r.random() < 0.15:
                n = r.choice([256, 65535, 65536, 70000, 16777215, 16777216, 4294967295])
                w, base = "blob(%d)" % n, "blob" if n < 1 << 16 else "mediumblob" if n < 1 << 24 else "longblob"
        elif k in ("enum", "set"):
            w = base = k; args = []
            while len(args) < r.choice([1, 2, 3, 6]):
                v = r.choice(WORDS) if r.random() < 0.8 else r.choice(["1", "A B", "it's", "x,y", "(z)", "Y", "N"])
                if v.lower() not in [a.lower() for a in args]: args.append(v)
            if r.random() < 0.1: post = " CHARACTER SET utf8"
        elif k == "bit":
            w = base = "bit"; args = r.choice([[], ["1"], ["3"], ["8"], ["64"]])
        elif k == "bin":
            w = base = r.choice(["binary", "varbinary"]); args = [str(r.choice([1, 10, 255]))]
            if base == "binary" and r.random() < 0.2: args = []
        elif k == "json": w = base = "json"; args = []
        elif k == "year": w = base = "year"; args = ["4"] if r.random() < 0.2 else []
        else: w = r.choice(["bool", "boolean"]); base = "boolean"; args = []
        txt = self.kw(w)
        if base in ("enum", "set"):
            txt += r.choice(["", " "]) + "(" + r.choice([",", ", "]).join(self.string(a) for a in args) + ")"
        elif args: txt += "(" + r.choice([",", ", "]).join(args) + ")"
        if w == "character varying": txt = self.kw("character") + " " + self.kw("varying") + "(" + args[0] + ")"
        return txt + post, dict(base=base + (" unsigned" if "unsigned" in post.lower() else ""), args=args), k, base

    def default(self, k, base, ty):
        """-> (text, value)"""
        r = self.r
        if r.random() < 0.12: return self.kw("null"), dict(NONE)
        if k in ("int",):
            if r.random() < 0.05: return r.choice([("0x1F", dict(k="num", v="31")), ("x'0a'", dict(k="num", v="10"))])
            v = r.choice(["0", "1", "-1", "42", "100", "-100"])
            if r.random() < 0.3: return "'%s'" % v, dict(k="str", v=v)
            if v[0] != "-" and r.random() < 0.1: return "+" + v, dict(k="num", v=v)
            return (v if v[0] != "-" or r.random() < 0.8 else "- " + v[1:]), dict(k="num", v=v)
        if k in ("dec", "float"):
            v = r.choice(["0", "1", "0.5", "10.25", "-3.75", "0.00", "-1", "123.450"])
            return ("'%s'" % v, dict(k="str", v=v)) if r.random() < 0.3 else (v, dict(k="num", v=v))
        if k == "str":
            if r.random() < 0.06: return r.choice([("X'4142'", dict(k="str", v="AB")), ("0x6162", dict(k="str", v="ab")), ("b'01000001'", dict(k="str", v="A")), ("'a' 'b'", dict(k="str", v="ab"))])
            v = r.choice([self.g.text(2), self.g.word(), "", "0", "NULL", "fn", "-1", "true"])
            if v == "": return "''", dict(k="str", v="")
            return self.string(v), dict(k="str", v=v)
        if k == "date":
            if base in ("datetime", "timestamp"):
                a = ty["args"][0] if ty["args"] else None
                if r.random() < 0.6:
                    f = r.choice(["current_timestamp", "current_timestamp()", "now()", "localtimestamp", "localtime()"])
                    if a: f = r.choice(["current_timestamp(%s)", "now(%s)"]) % a
                    return (self.kw(f) if r.random() < 0.5 else f), dict(k="fn", v="CURRENT_TIMESTAMP")
                return "'2020-01-31 10:20:30'", dict(k="str", v="2020-01-31 10:20:30")
            v = "2020-01-31" if base == "date" else "10:20:30"
            return "'%s'" % v, dict(k="str", v=v)
        if k == "enum":
            v = r.choice(ty["args"]); return self.string(v), dict(k="str", v=v)
        if k == "set":
            v = r.choice([a for a in ty["args"]]); return self.string(v), dict(k="str", v=v)
        if k == "bit":
            n = r.choice([0, 1] if ty["args"] in ([], ["1"]) else [0, 1, 2, 5, 7])
            w = r.random()
            if w < 0.5: return "b'%s'" % format(n, "b").zfill(r.choice([1, 3])), dict(k="num", v=str(n))
            if w < 0.6: return "0b" + format(n, "b"), dict(k="num", v=str(n))
            return str(n), dict(k="num", v=str(n))
        if k == "bool":
            n = r.choice([0, 1])
            return (str(n) if r.random() < 0.5 else self.kw("true" if n else "false")), dict(k="num", v=str(n))
        if k == "year": return "2020", dict(k="num", v="2020")
        return None

    def table(self, tname):
        r = self.r
        used = []
        n = r.randint(1, 8)
        cols, txt, inline_pk, uqs, idx = [], [], [], [], []
        self.bq = r.choice([0, 1, 2])
        want_pk = r.random() < 0.85
        pk_inline = r.random() < 0.5
        kinds = []
        for i in range(n):
            name = self.g.ident(used)
            if r.random() < 0.04: name = name + "$x"; used.append(name)
            t, ty, k, base = self.type()
            kinds.append((name, k, base, ty))
            opts = []
            c = dict(name=name, type=ty, notnull=False, autoinc=False, default=dict(NONE), onupdate=dict(NONE), comment="", after="")
            nullness = r.random()
            if nullness < 0.45: opts.append(self.kw("not") + " " + self.kw("null")); c["notnull"] = True
            elif nullness < 0.6: opts.append(self.kw("null"))
            if r.random() < 0.4:
                d = self.default(k, base, ty)
                if d: opts.append(self.kw("default") + " " + d[0]); c["default"] = d[1]
            if k == "date" and base in ("datetime", "timestamp") and r.random() < 0.4:
                f = "current_timestamp" + ("(%s)" % ty["args"][0] if ty["args"] else r.choice(["", "()"]))
                opts.append(self.kw("on update") + " " + self.kw(f)); c["onupdate"] = dict(k="fn", v="CURRENT_TIMESTAMP")
            if r.random() < 0.4:
                cm = self.g.text() if r.random() < 0.95 else r.choice(["", " ", "--", "/* x */", "0", "NULL"])
                opts.append(self.kw("comment") + " " + self.string(cm)); c["comment"] = cm
            if r.random() < 0.1 and k in ("int", "str", "dec", "date"):
                opts.append(self.kw(r.choice(["unique", "unique key"]))); uqs.append(dict(name=name, cols=[name]))
            if k == "str" and r.random() < 0.05 and "collate" not in t.lower(): opts.append("COLLATE utf8_general_ci")
            if r.random() < 0.03: opts.append(r.choice((["REFERENCES other_table (id)"] if c["onupdate"]["k"] == "none" else []) + ["COLUMN_FORMAT FIXED", "STORAGE DISK", "CHECK (1 > 0)"]))
            r.shuffle(opts)
            if r.random() < 0.015 and not any(q["autoinc"] for q in cols) and not want_pk:     # BIGINT UNSIGNED NOT NULL AUTO_INCREMENT UNIQUE
                t, opts, k = self.kw("serial"), [], "serial"
                kinds[-1] = (name, k, "bigint", ty)
                c.update(type=dict(base="bigint unsigned", args=[]), notnull=True, autoinc=True, default=dict(NONE), onupdate=dict(NONE), comment="")
                uqs[:] = [u for u in uqs if u["name"] != name] + [dict(name=name, cols=[name])]
            cols.append(c); txt.append([name, t, opts])
        ok = [i for i, (nm, k, b, ty) in enumerate(kinds) if k in ("int", "str", "dec", "date")]
        pk = []
        if want_pk and ok:
            npk = 1 if r.random() < 0.75 else r.choice([2, 3])
            ks = r.sample(ok, min(npk, len(ok)))
            pk = [kinds[i][0] for i in ks]
            for i in ks:
                opts = txt[i][2]
                txt[i][2] = [o for o in opts if o.lower() != "null" and not o.lower().endswith("default null")]
            ai = [i for i in ks if kinds[i][1] == "int"]
            if ai and r.random() < 0.5:
                i = ai[0]
                txt[i][2] = [o for o in txt[i][2] if not o.lower().startswith("default")]
                cols[i]["default"] = dict(NONE)
                txt[i][2].insert(r.randint(0, len(txt[i][2])), self.kw("auto_increment")); cols[i]["autoinc"] = True
        elif r.random() < 0.1:
            ai = [i for i in ok if kinds[i][1] == "int"]
            if ai:
                i = ai[0]
                txt[i][2] = [o for o in txt[i][2] if not o.lower().startswith("default") and o.lower() != "null"]
                cols[i]["default"] = dict(NONE)
                txt[i][2].append(self.kw("auto_increment")); cols[i]["autoinc"] = True
                uqs.append(dict(name="", cols=[kinds[i][0]])) if not any(u["cols"] == [kinds[i][0]] for u in uqs) else None
        tail = []
        sep = lambda: r.choice([", ", ",", " , "])
        def keycols(cs):
            out = []
            for x in cs:
                s = self.idt(x)
                k = [q for q in kinds if q[0] == x][0]
                if k[1] in ("str",) and r.random() < 0.2: s = "`%s`(%d)" % (x, r.choice([1, 3]))
                if r.random() < 0.1: s += " " + self.kw(r.choice(["asc", "desc"]))
                out.append(s)
            return "(" + sep().join(out) + ")"
        using = lambda: (" " + self.kw("using") + " " + self.kw(r.choice(["btree", "hash"]))) if r.random() < 0.1 else ""
        if pk:
            if len(pk) == 1 and pk_inline:
                i = [j for j, q in enumerate(kinds) if q[0] == pk[0]][0]
                txt[i][2].insert(r.randint(0, len(txt[i][2])), self.kw(r.choice(["primary key", "primary key", "key"] if not any(o.lower() == "unique" for o in txt[i][2]) else ["primary key"])))
            else:
                tail.append((self.kw("constraint") + " " + self.idt("pk_x") + " " if r.random() < 0.1 else "") + self.kw("primary key") + using() + " " + keycols(pk))
        inl = {u["cols"][0] for u in uqs if u["name"]}
        for u in [u for u in uqs if not u["name"]]:
            tail.append(self.kw("unique key") + " " + keycols(u["cols"]))
        cand = [i for i in ok]
        while cand and r.random() < 0.3 and len(uqs) < 4:
            cs = [kinds[i][0] for i in r.sample(cand, min(len(cand), r.choice([1, 1, 2, 3])))]
            nm = "uq_" + self.g.word() + str(len(uqs))
            form = r.choice(["unique", "unique key", "unique index", "constraint", "noname"])
            if form == "constraint": s = self.kw("constraint") + " " + self.idt(nm) + " " + self.kw(r.choice(["unique", "unique key", "unique index"])) + " "
            elif form == "noname": s = self.kw(r.choice(["unique", "unique key"])) + " "
            else: s = self.kw(form) + " " + self.idt(nm) + using() + " "
            tail.append(s + keycols(cs)); uqs.append(dict(name=nm, cols=cs))
        while cand and r.random() < 0.3 and len(idx) < 3:
            cs = [kinds[i][0] for i in r.sample(cand, min(len(cand), r.choice([1, 1, 2, 3])))]
            nm = r.choice(["idx_", "idx_", "IX_", "i", "Idx_"]) + self.g.word() + str(len(idx)) if r.random() < 0.85 else ""
            tail.append(self.kw(r.choice(["key", "index"])) + (" " + self.idt(nm) if nm else "") + using() + " " + keycols(cs)); idx.append(dict(name=nm, cols=cs))
        keep = list(tail)
        if cand and r.random() < 0.15:
            keep.append("CONSTRAINT fk_%s FOREIGN KEY (%s) REFERENCES %s (id)%s" % (self.g.word(), self.idt(kinds[cand[0]][0]), self.idt("other_table"), r.choice(["", " ON DELETE CASCADE", " ON UPDATE NO ACTION"])))
        tx = [q[0] for q in kinds if q[1] in ("str", "text")]
        if tx and r.random() < 0.1: keep.append("FULLTEXT KEY ft_%s (%s)" % (self.g.word(), self.idt(tx[0])))
        # constraint order matters for indexes only; shuffle the rest in between
        ixs = [k for k in keep if k.lower().startswith(("key", "index"))]
        oth = [k for k in keep if not k.lower().startswith(("key", "index"))]
        r.shuffle(oth)
        while oth: ixs.insert(r.randint(0, len(ixs)), oth.pop())
        coltxt = [self.idt(nm) + " " + t + ("" if not o else " " + " ".join(o)) for nm, t, o in txt]
        nl = r.choice(["\n  ", " ", "\n\t"])
        if r.random() < 0.1: coltxt[0] = "/* first */ " + coltxt[0]
        body = ("," + nl).join(coltxt + ixs)
        nm = self.idt(tname)
        if r.random() < 0.08: nm = self.idt("some_db") + "." + nm
        s = self.kw("create table") + (" " + self.kw("if not exists") if r.random() < 0.4 else "") + " " + nm + " (" + nl + body + nl + ")"
        if r.random() < 0.5:
            s += " " + " ".join(r.sample(["ENGINE=InnoDB", "DEFAULT CHARSET=utf8mb4", "AUTO_INCREMENT=5", "COLLATE=utf8_general_ci", "ROW_FORMAT=DYNAMIC"], r.choice([1, 2, 3])))
        return s, dict(op="createTable", table=tname, cols=cols, pk=pk, uqs=uqs, idx=idx, comment="")

    NOISE = ["SET NAMES utf8", "DROP TABLE IF EXISTS `foo`", "USE some_db", "INSERT INTO `foo` (`a`,`b`) VALUES (1,'x;y'),(2,'CREATE TABLE z (i int)')",
             "CREATE DATABASE IF NOT EXISTS some_db", "/*!40101 SET NAMES utf8 */", "LOCK TABLES `foo` WRITE", "UNLOCK TABLES",
             "DELETE FROM foo", "CREATE INDEX ix ON foo (a)", "DROP INDEX ix ON foo", "ALTER TABLE foo ADD COLUMN zz int", "SELECT 1", "UPDATE foo SET a = 1", "TRUNCATE TABLE foo",
             "CREATE UNIQUE INDEX ux ON foo (a)", "ALTER TABLE foo DROP COLUMN a, ADD PRIMARY KEY (b)", "RENAME TABLE foo TO bar", "START TRANSACTION", "COMMIT",
             "CREATE VIEW v AS SELECT a FROM foo"]

    def script(self):
        r = self.r
        self.upper = r.random() < 0.6
        used, out, stmts = [], [], []
        for i in range(r.randint(1, 4)):
            if r.random() < 0.3: out.append(r.choice(self.NOISE) + ";")
            if r.random() < 0.15: out.append(r.choice(["-- a comment; with a semicolon", "# hash comment", "/* block\n comment */"]))
            s, c = self.table(self.g.ident(used, True))
            out.append(s + ";"); stmts.append(c)
        if r.random() < 0.2: out.append(r.choice(self.NOISE) + ";")
        return r.choice(["\n", "\n\n"]).join(out) + r.choice(["", "\n"]), stmts
