"""Projection: MySQL DDL text -> list of abstract changes (records of spec/OctDb.tla).
A statement that is not legal in the supported MySQL dialect becomes {"op": "syntax", ...}."""
import re
from octgen import SQL_RESERVED

TOK = re.compile(r"""
   (?P<ws>\s+|--[^\n]*|\#[^\n]*|/\*.*?\*/)
 | (?P<str>'(?:[^'\\]|\\.|'')*')
 | (?P<dq>"(?:[^"\\]|\\.|"")*")
 | (?P<bq>`(?:[^`]|``)*`)
 | (?P<num>[+-]?(?:\d+\.\d+|\d+|\.\d+)(?![A-Za-z_0-9$]))
 | (?P<id>[A-Za-z_0-9$\u0080-\uffff]+)
 | (?P<op>[(),;=.*+-]|.)
""", re.X | re.S)
ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "b": "\b", "Z": "\x1a"}


class Bad(Exception):
    pass


def unquote(s):
    q, body, out, i = s[0], s[1:-1], [], 0
    while i < len(body):
        ch = body[i]
        if ch == "\\" and i + 1 < len(body):
            n = body[i + 1]
            out.append(ESC.get(n, n) if n not in "%_" else "\\" + n); i += 2
        elif ch == q: out.append(q); i += 2
        else: out.append(ch); i += 1
    return "".join(out)


def tokenize(text):
    out, pos = [], 0
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m: raise Bad("cannot tokenize at %r" % text[pos:pos + 20])
        k, v = m.lastgroup, m.group()
        pos = m.end()
        if k == "ws": continue
        if k in ("str", "dq"): out.append(("str", unquote(v)))
        elif k == "bq": out.append(("qid", v[1:-1].replace("``", "`")))
        else: out.append((k, v))
    return out


class P:
    def __init__(self, toks): self.t = toks; self.i = 0
    def peek(self, n=0): return self.t[self.i + n] if self.i + n < len(self.t) else ("eof", "")
    def next(self): x = self.peek(); self.i += 1; return x
    def kw(self, *ws):
        for n, w in enumerate(ws):
            k, v = self.peek(n)
            if k != "id" or v.upper() != w: return False
        self.i += len(ws); return True
    def op(self, o):
        if self.peek() == ("op", o): self.i += 1; return True
        return False
    def need(self, cond, what):
        if not cond: raise Bad("expected %s near %r" % (what, [v for _, v in self.t[max(0, self.i - 3):self.i + 4]]))
    def ident(self):
        k, v = self.next()
        if k == "qid":
            self.need(v != "", "non-empty identifier"); return v
        self.need(k == "id" or False, "identifier")
        if v.isdigit(): raise Bad("identifier %r needs quotes" % v)
        if v.lower() in SQL_RESERVED: raise Bad("reserved word %r used as identifier" % v)
        return v
    def idents(self):
        self.need(self.op("("), "(")
        out = []
        while True:
            out.append(self.ident())
            if self.op("("):
                self.need(self.next()[0] == "num" and self.op(")"), "key length")
            self.kw("ASC") or self.kw("DESC")
            if self.op(")"): return out
            self.need(self.op(","), ", or )")


TYPES = set("""tinyint smallint mediumint int integer bigint decimal numeric float double bit boolean bool char varchar binary
varbinary tinyblob blob mediumblob longblob tinytext text mediumtext longtext date datetime timestamp time year json enum set
geometry point real""".split())


def parse_type(p):
    k, v = p.next()
    b = v.lower()
    if k != "id" or b not in TYPES: raise Bad("unknown type %r" % v)
    args = []
    if p.op("("):
        while True:
            k, v = p.next()
            if b in ("enum", "set"): p.need(k == "str", "quoted member")
            else: p.need(k == "num" and v.isdigit(), "numeric type argument")
            args.append(v)
            if p.op(")"): break
            p.need(p.op(","), ", or )")
    if b in ("enum", "set"): p.need(args, "members")
    if b in ("json", "date", "geometry", "point", "tinyblob", "mediumblob", "longblob", "tinytext", "mediumtext", "longtext"):
        p.need(not args, "no type argument for " + b)
    while p.kw("UNSIGNED") or p.kw("ZEROFILL"): b += " unsigned"
    return {"base": b, "args": args}


NONE = {"k": "none", "v": ""}


def parse_value(p):
    k, v = p.next()
    if k == "str": return {"k": "str", "v": v}
    if k == "num": return {"k": "num", "v": v}
    if k == "op" and v in "+-" and p.peek()[0] == "num": return {"k": "num", "v": v + p.next()[1]}
    if k == "id":
        u = v.upper()
        if u in ("TRUE", "FALSE"): return {"k": "num", "v": "1" if u == "TRUE" else "0"}
        if u == "NULL": return dict(NONE)
        if p.op("("):
            if p.peek()[0] == "num": p.next()
            p.need(p.op(")"), ")")
            return {"k": "fn", "v": v}
        if u in ("CURRENT_TIMESTAMP", "CURRENT_DATE", "CURRENT_TIME", "LOCALTIME", "LOCALTIMESTAMP"): return {"k": "fn", "v": v}
        raise Bad("bare word %r used as value" % v)
    raise Bad("bad value %r" % v)


def parse_coldef(p):
    name = p.ident()
    c = dict(name=name, type=parse_type(p), notnull=False, autoinc=False, default=dict(NONE), onupdate=dict(NONE), comment="",
             after="", pk=False, unique=False)
    seen = set()
    def once(w):
        if w in seen: raise Bad("repeated %s" % w)
        seen.add(w)
    while True:
        if p.kw("NOT", "NULL"): once("null"); c["notnull"] = True
        elif p.kw("NULL"): once("null")
        elif p.kw("AUTO_INCREMENT"): once("ai"); c["autoinc"] = True
        elif p.kw("DEFAULT"): once("default"); c["default"] = parse_value(p)
        elif p.kw("ON", "UPDATE"): once("onupdate"); c["onupdate"] = parse_value(p)
        elif p.kw("COMMENT"):
            once("comment"); k, v = p.next(); p.need(k == "str", "comment string"); c["comment"] = v
        elif p.kw("PRIMARY", "KEY"): once("pk"); c["pk"] = True
        elif p.kw("UNIQUE", "KEY") or p.kw("UNIQUE"): once("uq"); c["unique"] = True
        elif p.kw("AFTER"): once("pos"); c["after"] = p.ident()
        elif p.kw("FIRST"): once("pos"); c["after"] = "<first>"
        else: return c


def strip(c):
    return {k: v for k, v in c.items() if k not in ("pk", "unique")}


def parse_create(p):
    ifnot = p.kw("IF", "NOT", "EXISTS")
    name = p.ident()
    out = dict(op="createTable", table=name, cols=[], pk=[], uqs=[], idx=[], comment="")
    p.need(p.op("("), "(")
    while True:
        if p.kw("PRIMARY", "KEY"):
            p.need(not out["pk"], "single primary key"); out["pk"] = p.idents()
        elif p.kw("UNIQUE", "KEY") or p.kw("UNIQUE", "INDEX") or p.kw("UNIQUE"):
            n = p.ident() if p.peek() != ("op", "(") else ""
            out["uqs"].append(dict(name=n, cols=p.idents()))
        elif p.peek()[0] == "id" and p.peek()[1].upper() in ("INDEX", "KEY"):
            p.next()
            n = p.ident() if p.peek() != ("op", "(") else ""
            out["idx"].append(dict(name=n, cols=p.idents()))
        else:
            c = parse_coldef(p)
            p.need(c["after"] == "", "no position")
            if c["pk"]: p.need(not out["pk"], "single primary key"); out["pk"] = [c["name"]]
            if c["unique"]: out["uqs"].append(dict(name=c["name"], cols=[c["name"]]))
            out["cols"].append(strip(c))
        if p.op(")"): break
        p.need(p.op(","), ", or )")
    while p.peek()[0] != "eof":
        if p.kw("COMMENT"):
            p.op("="); k, v = p.next(); p.need(k == "str", "comment string"); out["comment"] = v
        else:
            raise Bad("unknown table option %r" % (p.peek()[1],))
    return [out]


def parse_alter(p):
    t = p.ident(); out = []
    while True:
        if p.kw("ADD", "PRIMARY", "KEY"): out.append(dict(op="addPk", table=t, cols=p.idents()))
        elif p.kw("ADD", "UNIQUE", "KEY") or p.kw("ADD", "UNIQUE", "INDEX") or p.kw("ADD", "UNIQUE"):
            n = p.ident(); out.append(dict(op="addUnique", table=t, name=n, cols=p.idents()))
        elif p.kw("ADD", "CONSTRAINT"):
            n = p.ident(); p.need(p.kw("UNIQUE"), "UNIQUE"); p.kw("KEY"); p.kw("INDEX")
            out.append(dict(op="addUnique", table=t, name=n, cols=p.idents()))
        elif p.kw("ADD", "COLUMN") or p.kw("ADD"):
            c = parse_coldef(p); p.need(not c["pk"] and not c["unique"], "plain column")
            out.append(dict(op="addColumn", table=t, cols=[strip(c)]))
        elif p.kw("DROP", "PRIMARY", "KEY"): out.append(dict(op="dropPk", table=t))
        elif p.kw("DROP", "INDEX") or p.kw("DROP", "KEY") or p.kw("DROP", "CONSTRAINT"):
            out.append(dict(op="dropUnique", table=t, name=p.ident()))
        elif p.kw("DROP", "COLUMN") or p.kw("DROP"): out.append(dict(op="dropColumn", table=t, column=p.ident()))
        elif p.kw("MODIFY", "COLUMN") or p.kw("MODIFY"):
            c = parse_coldef(p)
            if c["pk"]: out.append(dict(op="addPk", table=t, cols=[c["name"]]))
            out.append(dict(op="modifyColumn", table=t, column=c["name"], **{"def": strip(c)}))
        elif p.kw("CHANGE", "COLUMN") or p.kw("CHANGE"):
            o = p.ident(); c = parse_coldef(p)
            if o != c["name"]: out.append(dict(op="renameColumn", table=t, column=o, to=c["name"]))
            out.append(dict(op="modifyColumn", table=t, column=c["name"], **{"def": strip(c)}))
        elif p.kw("RENAME", "COLUMN"):
            o = p.ident(); p.need(p.kw("TO"), "TO"); out.append(dict(op="renameColumn", table=t, column=o, to=p.ident()))
        elif p.kw("RENAME", "TO") or p.kw("RENAME"): out.append(dict(op="renameTable", table=t, to=p.ident()))
        elif p.kw("ALTER", "COLUMN") or p.kw("ALTER"):
            n = p.ident()
            if p.kw("SET", "DEFAULT"): out.append(dict(op="setDefault", table=t, column=n, value=parse_value(p)))
            else:
                p.need(p.kw("DROP", "DEFAULT"), "DROP DEFAULT"); out.append(dict(op="dropDefault", table=t, column=n))
        elif p.kw("COMMENT"):
            p.op("="); k, v = p.next(); p.need(k == "str", "comment string")
            out.append(dict(op="tableComment", table=t, comment=v))
        else: raise Bad("unknown ALTER action near %r" % (p.peek()[1],))
        if p.peek()[0] == "eof": return out
        p.need(p.op(","), ",")


def parse_script(text):
    """-> list of changes"""
    try: toks = tokenize(text)
    except Bad as e: return [dict(op="syntax", table=str(e))]
    stmts, cur = [], []
    for t in toks:
        if t == ("op", ";"): stmts.append((cur, True)); cur = []
        else: cur.append(t)
    if cur: stmts.append((cur, False))
    out = []
    for s, term in stmts:
        p = P(s)
        try:
            p.need(s, "statement")
            p.need(term, "terminating ;")
            if p.kw("CREATE", "TABLE"): r = parse_create(p)
            elif p.kw("DROP", "TABLE"): r = [dict(op="dropTable", table=p.ident())]
            elif p.kw("RENAME", "TABLE"):
                a = p.ident(); p.need(p.kw("TO"), "TO"); r = [dict(op="renameTable", table=a, to=p.ident())]
            elif p.kw("ALTER", "TABLE"): r = parse_alter(p)
            else: raise Bad("unknown statement %r" % (p.peek()[1],))
            p.need(p.peek()[0] == "eof", "end of statement")
            out += r
        except Bad as e:
            out.append(dict(op="syntax", table=str(e)))
    return out
