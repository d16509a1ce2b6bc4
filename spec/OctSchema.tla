----------------------------- MODULE OctSchema -----------------------------
(***************************************************************************)
(* The octopus schema: the single source of truth every command reads.     *)
(* A schema is a record [author, name, version, tables]; a table is        *)
(* [name, desc, group, className, columns, indices]; a column is           *)
(* [name, type, desc, size, scale, notnull, pk, unique, autoinc, default,  *)
(*  onupdate, values, ref] with ref a sequence of at most one reference.   *)
(* This module says which schemas are well formed, what their canonical    *)
(* form is, and how the group filter restricts them.                       *)
(***************************************************************************)
EXTENDS OctText

ColTypes == {"binary", "bit", "blob16", "blob24", "blob32", "blob8", "boolean", "char", "date", "datetime",
             "decimal", "double", "enum", "float", "geometry", "int16", "int24", "int32", "int64", "int8", "json",
             "point", "set", "text16", "text24", "text32", "text8", "time", "varbinary", "varchar", "year"}

Synonym ==
    [string |-> "varchar", tinyint |-> "int8", smallint |-> "int16", mediumint |-> "int24", int |-> "int32",
     integer |-> "int32", bigint |-> "int64", long |-> "int64", numeric |-> "decimal", real |-> "double",
     timestamp |-> "datetime", tinyblob |-> "blob8", blob |-> "blob16", mediumblob |-> "blob24",
     longblob |-> "blob32", tinytext |-> "text8", text |-> "text16", mediumtext |-> "text24", longtext |-> "text32"]

IntTypes  == {"int8", "int16", "int24", "int32", "int64"}
StrTypes  == {"char", "varchar"}
TextTypes == {"text8", "text16", "text24", "text32"}
BlobTypes == {"blob8", "blob16", "blob24", "blob32"}
RealTypes == {"decimal", "double", "float"}
NumTypes  == IntTypes \cup RealTypes

CanonType(t) == LET l == Lower(t) IN IF l \in DOMAIN Synonym THEN Synonym[l] ELSE l

WellFormedColumn(c) ==
    LET t == CanonType(c.type) IN
    /\ c.name # ""
    /\ t \in ColTypes
    /\ t = "set" => Len(c.values) \in 1..64
    /\ t = "enum" => Len(c.values) >= 1

WellFormed(s) == \A i \in 1..Len(s.tables) : \A j \in 1..Len(s.tables[i].columns) :
                     WellFormedColumn(s.tables[i].columns[j])

CanonColumn(c) ==
    LET t == CanonType(c.type) IN
    [c EXCEPT !.type = t, !.autoinc = c.autoinc /\ t \in IntTypes]
CanonTable(t) == [t EXCEPT !.columns = [j \in 1..Len(t.columns) |-> CanonColumn(t.columns[j])]]

TableLess(a, b) == StrLess(a.group, b.group) \/ (a.group = b.group /\ StrLess(a.name, b.name))
InOrder(ts) == \A i \in 1..(Len(ts) - 1) : ~TableLess(ts[i + 1], ts[i])

Canon(s) == [s EXCEPT !.tables = SortSeq([i \in 1..Len(s.tables) |-> CanonTable(s.tables[i])], TableLess)]
IsCanonical(s) == Canon(s) = s

(***************************************************************************)
(* Group filter.                                                           *)
(***************************************************************************)
InGroups(t, groups) == groups = "" \/ t.group \in Range(SplitStr(groups, ","))
Select(s, groups) == [s EXCEPT !.tables = SelectSeq(s.tables, LAMBDA t : InGroups(t, groups))]
Selected(s, groups) == Select(Canon(s), groups)

(***************************************************************************)
(* Small accessors.                                                        *)
(***************************************************************************)
Names(seq) == [i \in 1..Len(seq) |-> seq[i].name]
NameSet(seq) == { seq[i].name : i \in 1..Len(seq) }
HasName(seq, n) == \E i \in 1..Len(seq) : seq[i].name = n
ByName(seq, n) == seq[CHOOSE i \in 1..Len(seq) : seq[i].name = n]
PosOf(seq, n) == CHOOSE i \in 1..Len(seq) : seq[i].name = n
PkCols(t) == SelectSeq(t.columns, LAMBDA c : c.pk)
UqCols(t) == SelectSeq(t.columns, LAMBDA c : c.unique)
IsFn(v) == HasPrefix(v, "fn::")
FnOf(v) == DropPrefix(v, "fn::")
Bool(b) == IF b THEN "true" ELSE "false"

(***************************************************************************)
(* Reporting.  Every comparison of an observed artefact with the model     *)
(* yields a set of findings <<clause, where, expected, observed>>, all     *)
(* strings; the artefact conforms iff the set is empty.                    *)
(***************************************************************************)
Same(clause, where, expected, observed) ==
    IF expected = observed THEN {} ELSE {<<clause, where, ToString(expected), ToString(observed)>>}
Holds(cond, clause, where) == IF cond THEN {} ELSE {<<clause, where, "", "">>}

\* compare two sequences of named records position by position with Cmp(expected, observed, where)
SameSeq(clause, where, exp, obs, Cmp(_, _, _)) ==
    IF Names(exp) # Names(obs) THEN {<<clause, where, ToString(Names(exp)), ToString(Names(obs))>>}
    ELSE UNION { Cmp(exp[i], obs[i], where \o "." \o exp[i].name) : i \in 1..Len(exp) }

DiffRef(e, o, where) ==
    IF Len(e) # Len(o) THEN {<<"ref", where, ToString(e), ToString(o)>>}
    ELSE IF e = <<>> THEN {}
    ELSE Same("ref-table", where, e[1].table, o[1].table)
         \cup Same("ref-column", where, e[1].column, o[1].column)
         \cup Same("ref-relationship", where, e[1].relationship, o[1].relationship)

DiffColumn(e, o, where) ==
    Same("column-type", where, e.type, o.type)
    \cup Same("column-desc", where, e.desc, o.desc)
    \cup Same("column-size", where, e.size, o.size)
    \cup Same("column-scale", where, e.scale, o.scale)
    \cup Same("column-notnull", where, e.notnull, o.notnull)
    \cup Same("column-pk", where, e.pk, o.pk)
    \cup Same("column-unique", where, e.unique, o.unique)
    \cup Same("column-autoinc", where, e.autoinc, o.autoinc)
    \cup Same("column-default", where, e.default, o.default)
    \cup Same("column-onupdate", where, e.onupdate, o.onupdate)
    \cup Same("column-values", where, e.values, o.values)
    \cup DiffRef(e.ref, o.ref, where)

DiffTable(e, o, where) ==
    Same("table-desc", where, e.desc, o.desc)
    \cup Same("table-group", where, e.group, o.group)
    \cup Same("table-class", where, e.className, o.className)
    \cup SameSeq("columns", where, e.columns, o.columns, DiffColumn)
    \cup Same("indices", where, e.indices, o.indices)

DiffSchema(e, o) ==
    Same("schema-author", "", e.author, o.author)
    \cup Same("schema-name", "", e.name, o.name)
    \cup Same("schema-version", "", e.version, o.version)
    \cup SameSeq("tables", "", e.tables, o.tables, DiffTable)
=============================================================================
