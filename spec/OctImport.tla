----------------------------- MODULE OctImport -----------------------------
(***************************************************************************)
(* Schemas from octopus v1 files and from StarUML ER models.               *)
(* A v1 schema is a record like a v2 schema (no indices, enum values,      *)
(* ON UPDATE or relationships); a StarUML project is [name, models], a     *)
(* model a sequence of entities [name, columns] with columns               *)
(* [id, name, type, length, pk, unique, nullable, doc, refto].             *)
(***************************************************************************)
EXTENDS OctDiff

\* v1 has fewer types than v2; spellings of other types pass through
OjsonSynonym ==
    [string |-> "varchar", varchar |-> "varchar", char |-> "varchar", int |-> "int32", integer |-> "int32",
     smallint |-> "int32", bigint |-> "int64", long |-> "int64", datetime |-> "datetime", bool |-> "boolean",
     boolean |-> "boolean", number |-> "decimal", double |-> "decimal", decimal |-> "decimal", float |-> "float",
     text |-> "text16", date |-> "date", time |-> "time", blob |-> "blob16"]
OjsonColumn(c) == LET l == Lower(c.type) IN [c EXCEPT !.type = IF l \in DOMAIN OjsonSynonym THEN OjsonSynonym[l] ELSE @]
FromOjson(v) == [v EXCEPT !.tables = [i \in 1..Len(@) |-> [@[i] EXCEPT !.columns = [j \in 1..Len(@) |-> OjsonColumn(@[j])]]]]

(***************************************************************************)
(* "name", "name(n)" or "name(n,m)"; blanks may follow the comma.          *)
(***************************************************************************)
NatOf(s) == FoldLeft(LAMBDA acc, i : IF IsNum(Ch(s, i)) THEN 10 * acc + (CHOOSE d \in 0..9 : ToString(d) = Ch(s, i)) ELSE acc, 0, Idx(s))
UpTo(s, c) == SplitStr(s, c)[1]
After(s, c) == IF HasText(s, c) THEN DropPrefix(s, UpTo(s, c) \o c) ELSE ""
ParseType(s) ==
    IF ~HasText(s, "(") THEN [type |-> s, size |-> 0, scale |-> 0]
    ELSE LET args == UpTo(After(s, "("), ")") IN
         [type |-> UpTo(s, "("), size |-> NatOf(UpTo(args, ",")), scale |-> NatOf(After(args, ","))]

\* where a column with this id lives: <<table name, column name>>
AllEntities(p) == Concat(p.models)
Target(p, id) ==
    LET es == AllEntities(p)
        k == CHOOSE k \in 1..Len(es) : \E j \in 1..Len(es[k].columns) : es[k].columns[j].id = id
        j == CHOOSE j \in 1..Len(es[k].columns) : es[k].columns[j].id = id
    IN  [table |-> es[k].name, column |-> es[k].columns[j].name, relationship |-> ""]
RefsResolve(p) ==
    LET cs == Concat([k \in 1..Len(AllEntities(p)) |-> AllEntities(p)[k].columns]) IN
    \A i \in 1..Len(cs) : cs[i].refto # "" => \E j \in 1..Len(cs) : cs[j].id = cs[i].refto
StarumlColumn(p, c) ==
    LET ty == ParseType(c.type) IN
    [name |-> c.name, type |-> ty.type, desc |-> c.doc, size |-> IF c.length # 0 THEN c.length ELSE ty.size, scale |-> ty.scale,
     notnull |-> ~c.nullable, pk |-> c.pk, unique |-> c.unique, autoinc |-> FALSE, default |-> "", onupdate |-> "", values |-> <<>>,
     ref |-> IF c.refto = "" THEN <<>> ELSE << Target(p, c.refto) >>]
FromStaruml(p) ==
    LET es == AllEntities(p) IN
    [author |-> "", name |-> "", version |-> p.name,
     tables |-> [i \in 1..Len(es) |->
        [name |-> es[i].name, desc |-> "", group |-> "", className |-> "", indices |-> <<>>,
         columns |-> [j \in 1..Len(es[i].columns) |-> StarumlColumn(p, es[i].columns[j])]]]]

ImportOjsonFails(v, schema) == DiffSchema(Canon(FromOjson(v)), schema)
ImportStarumlFails(p, schema) == DiffSchema(Canon(FromStaruml(p)), schema)
=============================================================================
