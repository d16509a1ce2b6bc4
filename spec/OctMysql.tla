------------------------------ MODULE OctMysql -----------------------------
(***************************************************************************)
(* MySQL: the database a schema stands for, the DDL script that builds it, *)
(* and the schema a DDL script declares.                                   *)
(***************************************************************************)
EXTENDS OctDb

Ty(b, args) == [base |-> b, args |-> args]
\* (size[,scale]) arguments of a type
SizeArgs(c) == IF c.size = 0 THEN <<>>
               ELSE IF c.scale = 0 THEN <<ToString(c.size)>>
               ELSE <<ToString(c.size), ToString(c.scale)>>

MySqlBase ==
    [binary |-> "binary", bit |-> "bit", blob8 |-> "tinyblob", blob16 |-> "blob", blob24 |-> "mediumblob",
     blob32 |-> "longblob", boolean |-> "bit", char |-> "char", date |-> "date", datetime |-> "datetime",
     decimal |-> "decimal", double |-> "double", enum |-> "enum", float |-> "float", geometry |-> "geometry",
     int8 |-> "tinyint", int16 |-> "smallint", int24 |-> "mediumint", int32 |-> "int", int64 |-> "bigint",
     json |-> "json", point |-> "point", set |-> "set", text8 |-> "tinytext", text16 |-> "text",
     text24 |-> "mediumtext", text32 |-> "longtext", time |-> "time", varbinary |-> "varbinary",
     varchar |-> "varchar", year |-> "year"]
SizedInMySql == IntTypes \cup RealTypes \cup {"binary", "varbinary", "bit", "char", "varchar"}

MySqlType(c) ==
    IF c.type = "boolean" THEN Ty("bit", <<"1">>)
    ELSE IF c.type \in {"enum", "set"} THEN Ty(c.type, c.values)
    ELSE Ty(MySqlBase[c.type], IF c.type \in SizedInMySql THEN SizeArgs(c) ELSE <<>>)

\* booleans may be written true/false or 1/0
BoolLit(v) == IF Lower(v) = "true" THEN "1" ELSE IF Lower(v) = "false" THEN "0" ELSE v
MySqlLit(c, v) == IF c.type = "boolean" THEN BoolLit(v) ELSE v
MySqlValue(c, v) == IF v = "" THEN NoVal
                    ELSE IF IsFn(v) THEN [k |-> "fn", v |-> FnOf(v)]
                    ELSE [k |-> "lit", v |-> MySqlLit(c, v)]

MySqlCol(c) == [name |-> c.name, type |-> MySqlType(c), notnull |-> c.notnull, autoinc |-> c.autoinc,
                default |-> MySqlValue(c, c.default), onupdate |-> MySqlValue(c, c.onupdate), comment |-> c.desc]

ColNames(cs) == [i \in 1..Len(cs) |-> cs[i].name]

\* the CREATE TABLE statement of a (canonical) table
MySqlCreate(t, suffix) ==
    [op |-> "createTable", table |-> t.name, cols |-> [i \in 1..Len(t.columns) |-> MySqlCol(t.columns[i])],
     pk |-> ColNames(PkCols(t)),
     uqs |-> IF UqCols(t) = <<>> THEN <<>> ELSE << [name |-> t.name \o suffix, cols |-> ColNames(UqCols(t))] >>,
     idx |-> [i \in 1..Len(t.indices) |-> [name |-> t.indices[i].name, cols |-> t.indices[i].columns]],
     comment |-> ""]
MySqlScript(s, suffix) == [i \in 1..Len(s.tables) |-> MySqlCreate(s.tables[i], suffix)]

\* the database of a canonical schema; identities are table and table.column names
MySqlDb(s, suffix) ==
    [n \in NameSet(s.tables) |-> Created(MySqlCreate(ByName(s.tables, n), suffix), n)]

MySqlOpt == [comments |-> TRUE, tcomments |-> FALSE, order |-> TRUE, autoinc |-> "exact", onupdate |-> TRUE, indices |-> TRUE]

(***************************************************************************)
(* Reading the text of a statement: a value arrives as it was written -    *)
(* quoted (k = "str"), as a number (k = "num") or as a call (k = "fn").    *)
(* MySQL takes numbers for the numeric types and quoted text for the rest. *)
(***************************************************************************)
NumericBase == {"tinyint", "smallint", "mediumint", "int", "integer", "bigint", "decimal", "numeric", "float",
                "double", "real", "bit", "year", "boolean", "bool"}
BaseOf(ty) == IF HasSuffix(ty.base, " unsigned") THEN SubSeq(ty.base, 1, Len(ty.base) - 9) ELSE ty.base
Read(ty, v) ==
    IF v.k = "str" THEN [k |-> IF BaseOf(ty) = "bit" THEN "quoted number" ELSE "lit", v |-> v.v]
    ELSE IF v.k = "num" THEN [k |-> IF BaseOf(ty) \in NumericBase THEN "lit" ELSE "unquoted text", v |-> v.v]
    ELSE v
ReadCol(d) == [d EXCEPT !.default = Read(d.type, @), !.onupdate = Read(d.type, @)]
ReadChange(c) ==
    CASE c.op \in {"createTable", "addColumn"} -> [c EXCEPT !.cols = [i \in 1..Len(@) |-> ReadCol(@[i])]]
      [] c.op = "modifyColumn" -> [c EXCEPT !.def = ReadCol(@)]
      [] OTHER -> c
ReadScript(script) == [i \in 1..Len(script) |-> ReadChange(script[i])]

RunFails(r) == { <<"rejected: " \o b[1], b[2], b[3], b[4]>> : b \in r.bad }

(***************************************************************************)
(* export mysql.                                                           *)
(***************************************************************************)
ExportMySqlFails(s, opts, script) ==
    LET sel == Selected(s, opts.groups)
        r == Run(EmptyDb, ReadScript(script))
    IN  IF r.bad # {} THEN RunFails(r)
        ELSE DbDiff(MySqlDb(sel, opts.suffix), r.db, MySqlOpt)

(***************************************************************************)
(* import mysql: the schema that a script declares.                        *)
(***************************************************************************)
ArgNat(ty, i) == IF Len(ty.args) < i THEN 0 ELSE
                 FoldLeft(LAMBDA acc, j : 10 * acc + (CHOOSE d \in 0..9 : ToString(d) = Ch(ty.args[i], j)), 0, Idx(ty.args[i]))
FromMySqlBase ==
    [tinyint |-> "int8", smallint |-> "int16", mediumint |-> "int24", int |-> "int32", integer |-> "int32",
     bigint |-> "int64", decimal |-> "decimal", numeric |-> "decimal", float |-> "float", double |-> "double",
     real |-> "double", bit |-> "bit", boolean |-> "boolean", bool |-> "boolean", char |-> "char",
     varchar |-> "varchar", binary |-> "binary", varbinary |-> "varbinary", tinyblob |-> "blob8",
     blob |-> "blob16", mediumblob |-> "blob24", longblob |-> "blob32", tinytext |-> "text8", text |-> "text16",
     mediumtext |-> "text24", longtext |-> "text32", date |-> "date", datetime |-> "datetime",
     timestamp |-> "datetime", time |-> "time", year |-> "year", json |-> "json", enum |-> "enum", set |-> "set"]
ImportType(ty) ==
    LET b == BaseOf(ty)
        one == Len(ty.args) = 1 /\ ty.args[1] = "1"
        t == IF b = "tinyint" /\ one THEN "boolean"
             ELSE IF b = "bit" /\ (one \/ ty.args = <<>>) THEN "boolean"
             ELSE FromMySqlBase[b]
    IN  [type |-> t,
         size |-> IF t \in SizedInMySql THEN ArgNat(ty, 1) ELSE 0,
         scale |-> IF t \in RealTypes THEN ArgNat(ty, 2) ELSE 0,
         values |-> IF t \in {"enum", "set"} THEN ty.args ELSE <<>>]
\* NOW() and its synonyms are CURRENT_TIMESTAMP
FnCanon(f) == IF f \in {"NOW", "LOCALTIME", "LOCALTIMESTAMP", "CURRENT_TIMESTAMP"} THEN "CURRENT_TIMESTAMP" ELSE f
ImportValue(v) == IF v.k = "none" THEN "" ELSE IF v.k = "fn" THEN "fn::" \o FnCanon(v.v) ELSE v.v

ImportTable(c) ==
    [name |-> c.table, desc |-> "", group |-> "", className |-> "",
     columns |-> [i \in 1..Len(c.cols) |->
        LET d == c.cols[i]
            ty == ImportType(d.type)
            pk == d.name \in Range(c.pk)
        IN  [name |-> d.name, type |-> ty.type, desc |-> d.comment, size |-> ty.size, scale |-> ty.scale,
             notnull |-> d.notnull \/ pk \/ d.autoinc, pk |-> pk,
             unique |-> \E j \in 1..Len(c.uqs) : d.name \in Range(c.uqs[j].cols),
             autoinc |-> d.autoinc, default |-> ImportValue(d.default), onupdate |-> ImportValue(d.onupdate),
             values |-> ty.values, ref |-> <<>>]],
     indices |-> [i \in 1..Len(c.idx) |-> [name |-> c.idx[i].name, columns |-> c.idx[i].cols]]]

ImportMySql(script, opts) ==
    LET creates == SelectSeq(script, LAMBDA c : c.op = "createTable" /\ c.table \notin Range(opts.excludes))
    IN  Canon([author |-> opts.author, name |-> "", version |-> opts.version,
               tables |-> [i \in 1..Len(creates) |-> ImportTable(creates[i])]])

\* the schema may leave an index without a name unnamed, or give it any name
Unnamed(e, o) ==
    IF Len(e.tables) # Len(o.tables) THEN o ELSE
    [o EXCEPT !.tables = [i \in 1..Len(@) |->
        LET x == e.tables[i].indices IN
        IF Len(x) # Len(@[i].indices) THEN @[i]
        ELSE [@[i] EXCEPT !.indices = [j \in 1..Len(@) |-> IF x[j].name = "" THEN [@[j] EXCEPT !.name = ""] ELSE @[j]]]]]
ImportMySqlFails(script, opts, schema) == LET e == ImportMySql(script, opts) IN DiffSchema(e, Unnamed(e, schema))

(***************************************************************************)
(* What an export/import round trip keeps of a schema.                     *)
(***************************************************************************)
MySqlSurvives(c) ==
    [c EXCEPT !.type = IF c.type = "bit" /\ c.size \in {0, 1} THEN "boolean"
                       ELSE IF c.type = "int8" /\ c.size = 1 THEN "boolean" ELSE @,
              !.size = IF c.type \in SizedInMySql /\ ~(c.type = "bit" /\ c.size = 1) /\ ~(c.type = "int8" /\ c.size = 1) THEN @ ELSE 0,
              !.scale = IF c.type \in RealTypes /\ c.size > 0 THEN @ ELSE 0,
              !.values = IF c.type \in {"enum", "set"} THEN @ ELSE <<>>,
              !.notnull = c.notnull \/ c.pk \/ c.autoinc,
              !.default = IF c.default = "" THEN @ ELSE IF IsFn(c.default) THEN "fn::" \o FnCanon(FnOf(@)) ELSE MySqlLit(c, @),
              !.ref = <<>>]
MySqlSurvivesTable(t) == [t EXCEPT !.desc = "", !.group = "", !.className = "",
                                   !.columns = [i \in 1..Len(@) |-> MySqlSurvives(@[i])]]
MySqlRoundTrip(s, groups, opts) ==
    Canon([author |-> opts.author, name |-> "", version |-> opts.version,
           tables |-> LET sel == Selected(s, groups).tables IN [i \in 1..Len(sel) |-> MySqlSurvivesTable(sel[i])]])
=============================================================================
