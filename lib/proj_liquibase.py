"""Projection: liquibase YAML changelog -> list of change sets with abstract changes.
Only shapes liquibase itself accepts are read; anything else is an error (malformed output)."""
import re
from decimal import Decimal
import yaml


class Bad(Exception):
    pass


class Loader(yaml.SafeLoader):
    """plain YAML 1.1 scalars, but numbers and dates stay text so that their spelling can be judged"""


def construct_mapping(self, node, deep=False):
    keys = [k.value for k, _ in node.value]
    if len(set(keys)) != len(keys): raise Bad("duplicate key in %s" % keys)
    return yaml.SafeLoader.construct_mapping(self, node, deep)


Loader.construct_mapping = construct_mapping
for tag in ("int", "float", "timestamp"):
    Loader.add_constructor("tag:yaml.org,2002:" + tag, lambda l, n, tag=tag: (tag, n.value))
for tag in ("value", "merge"):                # a lone = or << is text to liquibase
    Loader.add_constructor("tag:yaml.org,2002:" + tag, lambda l, n: n.value)
# YAML 1.1 only knows 1.0e+06; liquibase's parser (SnakeYAML) reads 1e+06 as a float too
Loader.add_implicit_resolver("tag:yaml.org,2002:float", re.compile(r"^[-+]?[0-9]+(\.[0-9]*)?[eE][-+]?[0-9]+$"), list("-+0123456789"))


def num(x):
    """canonical spelling of a number"""
    d = Decimal(str(x))
    if d == 0: return "0"
    s = format(d.normalize(), "f")
    return s


def text(x, what):
    # liquibase takes scalars for text attributes and uses their spelling
    if isinstance(x, tuple): return x[1]
    if isinstance(x, str): return x
    raise Bad("%s must be text, got %r" % (what, x))


def ident(x, what):
    if isinstance(x, tuple): return x[1]
    if not isinstance(x, str) or x == "": raise Bad("%s must be a name, got %r" % (what, x))
    return x


def flag(x, what):
    if x is True or x is False: return x
    raise Bad("%s must be a boolean, got %r" % (what, x))


def parse_type(s):
    if not isinstance(s, str): raise Bad("type %r" % (s,))
    m = re.fullmatch(r"\s*([A-Za-z][A-Za-z0-9]*)\s*(?:\((.*)\))?\s*", s, re.S)
    if not m: raise Bad("type %r" % s)
    base, a = m.group(1).lower(), m.group(2)
    args = []
    if a is not None:
        if base in ("enum", "set"):
            pos = 0
            while True:
                q = re.compile(r"\s*'((?:[^']|'')*)'\s*(,|$)").match(a, pos)
                if not q: raise Bad("members of %r" % s)
                args.append(q.group(1).replace("''", "'")); pos = q.end()
                if not q.group(2): break
        else:
            args = [x.strip() for x in a.split(",")]
            if not all(x.isdigit() for x in args): raise Bad("type arguments %r" % s)
    return dict(base=base, args=args)


def keys(d, what, need, may=()):
    if not isinstance(d, dict): raise Bad("%s must be a mapping" % what)
    for k in need:
        if k not in d: raise Bad("%s needs %s" % (what, k))
    for k in d:
        if k not in need and k not in may: raise Bad("%s has unknown attribute %s" % (what, k))


VALS = ("defaultValue", "defaultValueBoolean", "defaultValueNumeric", "defaultValueDate", "defaultValueComputed")


def value(d, what):
    got = [k for k in VALS if k in d]
    if len(got) > 1: raise Bad("%s has several default values" % what)
    if not got: return dict(k="none", v="")
    k, x = got[0], d[got[0]]
    if k == "defaultValueBoolean": return dict(k="bool", v="true" if flag(x, k) else "false")
    if k == "defaultValueNumeric":
        v = x[1] if isinstance(x, tuple) else x
        if not isinstance(v, str) or not re.fullmatch(r"[-+]?(\d+(\.\d*)?|\.\d+)([eE][-+]?\d+)?", v): raise Bad("numeric default %r" % (x,))
        return dict(k="num", v=num(v))
    if x is None: raise Bad("%s is null" % k)
    if isinstance(x, bool): return dict(k="str", v="true" if x else "false")
    v = text(x, k)
    return dict(k={"defaultValue": "str", "defaultValueDate": "date", "defaultValueComputed": "fn"}[k], v=v)


def column(x):
    keys(x, "column item", ["column"])
    d = x["column"]
    keys(d, "column", ["name", "type"], ("autoIncrement", "constraints", "remarks", "afterColumn") + VALS)
    c = d.get("constraints", {})
    keys(c, "constraints", [], ("primaryKey", "nullable", "unique"))
    return dict(name=ident(d["name"], "name"), type=parse_type(d["type"]), autoinc=flag(d.get("autoIncrement", False), "autoIncrement"),
                notnull=not flag(c.get("nullable", True), "nullable"), pk=flag(c.get("primaryKey", False), "primaryKey"),
                unique=flag(c.get("unique", False), "unique"), comment=text(d.get("remarks", ""), "remarks"),
                default=value(d, "column"), after=ident(d["afterColumn"], "afterColumn") if "afterColumn" in d else "")


def columns(x, what):
    if not isinstance(x, list) or not x: raise Bad("%s needs columns" % what)
    return [column(c) for c in x]


def names(x):
    if isinstance(x, tuple): x = x[1]
    if not isinstance(x, str): raise Bad("columnNames %r" % (x,))
    out = [n.strip() for n in x.split(",")]
    if "" in out: raise Bad("empty name in columnNames %r" % x)
    return out


NOTYPE = dict(base="", args=[])


def dtype(d):
    return parse_type(d["columnDataType"]) if "columnDataType" in d else NOTYPE


def change(x):
    if not isinstance(x, dict) or len(x) != 1: raise Bad("a change has one key: %r" % (x,))
    (k, d), = x.items()
    t = lambda: ident(d["tableName"], "tableName")
    col = lambda: ident(d["columnName"], "columnName")
    if k == "createTable":
        keys(d, k, ["tableName", "columns"], ["remarks"])
        return dict(op=k, table=t(), cols=columns(d["columns"], k), comment=text(d.get("remarks", ""), "remarks"))
    if k == "dropTable":
        keys(d, k, ["tableName"]); return dict(op=k, table=t())
    if k == "renameTable":
        keys(d, k, ["oldTableName", "newTableName"])
        return dict(op=k, table=ident(d["oldTableName"], k), to=ident(d["newTableName"], k))
    if k == "addColumn":
        keys(d, k, ["tableName", "columns"]); return dict(op=k, table=t(), cols=columns(d["columns"], k))
    if k == "dropColumn":
        keys(d, k, ["tableName", "columnName"]); return dict(op=k, table=t(), column=col())
    if k == "renameColumn":
        keys(d, k, ["tableName", "oldColumnName", "newColumnName"], ["columnDataType"])
        return dict(op=k, table=t(), column=ident(d["oldColumnName"], k), to=ident(d["newColumnName"], k), dtype=dtype(d))
    if k == "modifyDataType":
        keys(d, k, ["tableName", "columnName", "newDataType"]); return dict(op="modifyType", table=t(), column=col(), type=parse_type(d["newDataType"]))
    if k == "setColumnRemarks":
        keys(d, k, ["tableName", "columnName"], ["remarks"])
        return dict(op="columnComment", table=t(), column=col(), comment=text(d.get("remarks", ""), "remarks"))
    if k == "setTableRemarks":
        keys(d, k, ["tableName"], ["remarks"]); return dict(op="tableComment", table=t(), comment=text(d.get("remarks", ""), "remarks"))
    if k == "addNotNullConstraint":
        keys(d, k, ["tableName", "columnName"], ["columnDataType", "defaultNullValue"])
        f = d.get("defaultNullValue", "")
        if isinstance(f, bool): f = "true" if f else "false"
        return dict(op="notNull", table=t(), column=col(), dtype=dtype(d), fill=text(f, "defaultNullValue"))
    if k == "dropNotNullConstraint":
        keys(d, k, ["tableName", "columnName"], ["columnDataType"]); return dict(op="dropNotNull", table=t(), column=col(), dtype=dtype(d))
    if k == "addAutoIncrement":
        keys(d, k, ["tableName", "columnName"], ["columnDataType"]); return dict(op="autoInc", table=t(), column=col(), dtype=dtype(d))
    if k == "addDefaultValue":
        keys(d, k, ["tableName", "columnName"], ("columnDataType",) + VALS)
        v = value(d, k)
        if v["k"] == "none": raise Bad("addDefaultValue without value")
        return dict(op="setDefault", table=t(), column=col(), dtype=dtype(d), value=v)
    if k == "dropDefaultValue":
        keys(d, k, ["tableName", "columnName"], ["columnDataType"]); return dict(op="dropDefault", table=t(), column=col(), dtype=dtype(d))
    if k == "addPrimaryKey":
        keys(d, k, ["tableName", "columnNames"], ["constraintName"]); return dict(op="addPk", table=t(), cols=names(d["columnNames"]))
    if k == "dropPrimaryKey":
        keys(d, k, ["tableName"], ["constraintName"]); return dict(op="dropPk", table=t())
    if k == "addUniqueConstraint":
        keys(d, k, ["tableName", "columnNames", "constraintName"])
        return dict(op="addUnique", table=t(), name=ident(d["constraintName"], k), cols=names(d["columnNames"]))
    if k == "dropUniqueConstraint":
        keys(d, k, ["tableName", "constraintName"]); return dict(op="dropUnique", table=t(), name=ident(d["constraintName"], k))
    raise Bad("unknown change %s" % k)


def parse_changelog(s):
    doc = yaml.load(s, Loader)
    keys(doc, "changelog", ["databaseChangeLog"])
    out = []
    for x in doc["databaseChangeLog"]:
        if not isinstance(x, dict) or len(x) != 1: raise Bad("changelog entry %r" % (x,))
        (k, d), = x.items()
        if k == "objectQuotingStrategy":
            if d not in ("LEGACY", "QUOTE_ALL_OBJECTS", "QUOTE_ONLY_RESERVED_WORDS"): raise Bad("quoting strategy %r" % d)
            continue
        if k != "changeSet": raise Bad("changelog entry %s" % k)
        keys(d, "changeSet", ["id"], ["author", "preConditions", "changes"])
        pre = d.get("preConditions", {})
        keys(pre, "preConditions", [], ["onError", "onFail", "dbms"])
        runs = True
        if "dbms" in pre:
            keys(pre["dbms"], "dbms", ["type"])
            runs = "mysql" in [n.strip() for n in pre["dbms"]["type"].split(",")]
        out.append(dict(id=ident(d["id"], "id"), author=text(d.get("author", ""), "author"), runs=runs,
                        changes=[change(c) for c in d.get("changes", [])]))
    return out
