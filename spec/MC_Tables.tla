------------------------------ MODULE MC_Tables -----------------------------
(***************************************************************************)
(* Two versions of a schema at the level of tables, exhaustively: every    *)
(* set of up to NOld tables over a few definitions and groups against      *)
(* every set of kept, redefined, dropped, renamed and new tables, under    *)
(* every group filter.  As in OctPlan, a planner written in TLA+ shows     *)
(* that the demands on the diff commands can be met and are not vacuous.   *)
(***************************************************************************)
EXTENDS Octopus, Json

CONSTANTS NOld, NFresh, NDefs, Groups, Filters

VARIABLES old, new, filter,
          A, B          \* the selected tables of both, in canonical order
vars == <<old, new, filter, A, B>>

NoCol == [name |-> "", type |-> "int32", desc |-> "", size |-> 0, scale |-> 0, notnull |-> FALSE, pk |-> FALSE, unique |-> FALSE,
          autoinc |-> FALSE, default |-> "", onupdate |-> "", values |-> <<>>, ref |-> <<>>]
Key == [NoCol EXCEPT !.name = "key_no", !.pk = TRUE, !.notnull = TRUE]
Code == [NoCol EXCEPT !.name = "code", !.unique = TRUE]
Kind(d, cs) == [desc |-> d, columns |-> cs]
Defs == << Kind("", <<Key, Code>>), Kind("text", <<Key, Code>>), Kind("", <<Code>>), Kind("", <<Code, Key>>) >>
OldNames == <<"t_ada", "t_bob", "t_cyd">>
NewNames == <<"t_xan", "t_yul">>
Tab(n, d, g) == [name |-> n, desc |-> Defs[d].desc, group |-> g, className |-> "", indices |-> <<>>, columns |-> Defs[d].columns]

Olds == UNION { { [i \in 1..n |-> Tab(OldNames[i], d[i], g[i])] : d \in [1..n -> 1..NDefs], g \in [1..n -> Groups] } : n \in 0..NOld }
\* what becomes of each old table (0: it goes), and which ones are new
Sch(v, ts) == [author |-> "me", name |-> "", version |-> v, tables |-> ts]
Init == old \in Olds /\ new = <<>> /\ filter = "?" /\ A = <<>> /\ B = <<>>
Next == /\ filter = "?" /\ UNCHANGED old
        /\ \E keep \in [1..Len(old) -> 0..NDefs] : \E n \in 0..NFresh : \E d \in [1..n -> 1..NDefs] : \E g \in [1..n -> Groups] :
              new' = SelectSeq([i \in 1..Len(old) |-> IF keep[i] = 0 THEN [old[i] EXCEPT !.name = ""] ELSE Tab(old[i].name, keep[i], old[i].group)],
                               LAMBDA t : t.name # "")
                     \o [i \in 1..n |-> Tab(NewNames[i], d[i], g[i])]
        /\ filter' \in Filters
        /\ A' = Selected(Sch("1", old), filter').tables
        /\ B' = Selected(Sch("2", new'), filter').tables
Ready == filter # "?"

Opts == [author |-> "", groups |-> filter, suffix |-> "_uq", comments |-> TRUE]

RECURSIVE Pairs(_, _)
Pairs(added, removed) ==
    IF added = <<>> THEN <<>>
    ELSE LET m == { j \in 1..Len(removed) : removed[j].columns = added[1].columns }
         IN  IF m = {} THEN Pairs(Tail(added), removed)
             ELSE LET j == CHOOSE x \in m : \A y \in m : x <= y
                  IN  << <<removed[j], added[1]>> >> \o Pairs(Tail(added), RemoveAt(removed, j))
Renames == Pairs(Gone(B, A), Gone(A, B))
IsOld(n) == \E p \in Range(Renames) : p[1].name = n
IsNew(n) == \E p \in Range(Renames) : p[2].name = n
Both == SelectSeq(B, LAMBDA t : HasName(A, t.name))
When(cond, seq) == IF cond THEN seq ELSE <<>>
Each(S(_), seq) == Concat([i \in 1..Len(seq) |-> S(seq[i])])

DropUq(t, n) == When(UqCols(t) # <<>>, << [op |-> "dropUnique", table |-> n, name |-> t.name \o "_uq"] >>)
AddUq(t) == When(UqCols(t) # <<>>, << [op |-> "addUnique", table |-> t.name, name |-> t.name \o "_uq", cols |-> ColNames(UqCols(t))] >>)
AddPk(t) == When(PkCols(t) # <<>>, << [op |-> "addPk", table |-> t.name, cols |-> ColNames(PkCols(t))] >>)
Remark(o, t) == When(o.desc # t.desc, << [op |-> "tableComment", table |-> t.name, comment |-> t.desc] >>)
\* columns as a change states them, in the terms of liquibase or of SQL
Def(C(_), c, after) == [pk |-> FALSE, unique |-> FALSE, after |-> after] @@ C(c)
Create(C(_), t, comment) == << [op |-> "createTable", table |-> t.name, cols |-> [i \in 1..Len(t.columns) |-> Def(C, t.columns[i], "")],
                                pk |-> ColNames(PkCols(t)), uqs |-> <<>>, idx |-> <<>>, comment |-> comment] >>
\* tables that stay: the columns of the definitions are the same ones, present or not and in either order
Alter(C(_), first, o, n) ==
    LET come == Gone(n.columns, o.columns)
        gone == Gone(o.columns, n.columns)
    IN  When(UqNames(o) # UqNames(n), DropUq(o, n.name))
        \o When(PkNames(o) # PkNames(n) /\ PkNames(o) # {}, << [op |-> "dropPk", table |-> n.name] >>)
        \o Each(LAMBDA c : << [op |-> "addColumn", table |-> n.name,
                               cols |-> << Def(C, c, IF PosOf(n.columns, c.name) = 1 THEN first ELSE n.columns[PosOf(n.columns, c.name) - 1].name) >>] >>, come)
        \o Each(LAMBDA c : << [op |-> "dropColumn", table |-> n.name, column |-> c.name] >>, gone)
        \o When(PkNames(o) # PkNames(n), AddPk(n)) \o When(UqNames(o) # UqNames(n), AddUq(n)) \o Remark(o, n)
Rename(p) == << [op |-> "renameTable", table |-> p[1].name, to |-> p[2].name] >> \o DropUq(p[1], p[2].name) \o AddUq(p[2]) \o Remark(p[1], p[2])

Plan(C(_), first, inline, comments) ==
    Each(LAMBDA t : When(~IsOld(t.name), << [op |-> "dropTable", table |-> t.name] >>), Gone(A, B))
    \o Each(Rename, Renames)
    \o Each(LAMBDA t : When(~IsNew(t.name), Create(C, t, IF comments THEN t.desc ELSE "") \o When(~inline, AddPk(t)) \o AddUq(t)), Gone(B, A))
    \o Each(LAMBDA t : Alter(C, first, ByName(A, t.name), t), Both)
\* a changelog marks the key columns of a new table inline
Inline(c) == IF c.op # "createTable" THEN c
             ELSE [c EXCEPT !.cols = [i \in 1..Len(@) |-> [@[i] EXCEPT !.pk = @ \/ c.cols[i].name \in Range(c.pk)]], !.pk = <<>>]
LqPlan == LET p == Plan(LqCol, "", TRUE, TRUE) IN [i \in 1..Len(p) |-> Inline(p[i])]
SqlPlan == Plan(MySqlCol, First, TRUE, FALSE)
Log(steps) == [i \in 1..Len(steps) |-> [id |-> ToString(i), author |-> "me", runs |-> TRUE, changes |-> <<steps[i]>>]]

Md == LET names == SetToSortedSeq(NameSet(A) \cup NameSet(B))
          old_(n) == (CHOOSE p \in Range(Renames) : p[2].name = n)[1]
          new_(n) == (CHOOSE p \in Range(Renames) : p[1].name = n)[2]
          items(n) ==
              IF HasName(A, n) /\ HasName(B, n) THEN TableItems(ByName(A, n), ByName(B, n), TRUE, <<>>)
              ELSE IF HasName(A, n)
              THEN IF ~IsOld(n) THEN << Item("drop table", "", "", "") >>
                   ELSE << Item("rename table", n, new_(n).name, "") >>
                        \o When(UqNames(new_(n)) # {}, << Item("no unique", JoinSorted(UqNames(new_(n))), "", "") >>)
              ELSE IF ~IsNew(n) THEN << Item("create table", "", "", "") >>
                   ELSE When(UqNames(old_(n)) # {}, << Item("unique", JoinSorted(UqNames(old_(n))), "", "") >>)
                        \o When(old_(n).desc # ByName(B, n).desc, << Item("table comment", ByName(B, n).desc, "", "") >>)
      IN  [from |-> "1", to |-> "2",
           sections |-> SelectSeq([i \in 1..Len(names) |-> [name |-> names[i], items |-> items(names[i])]], LAMBDA s : s.items # <<>>)]

Lq(steps) == DiffLiquibaseFails(Sch("1", old), Sch("2", new), Opts, Log(steps))
Sql(steps) == DiffFlywayFails(Sch("1", old), Sch("2", new), Opts, steps)
LqPlanConforms == Ready => Lq(LqPlan) = {}
SqlPlanConforms == Ready => Sql(SqlPlan) = {}
MdConforms == Ready => DiffMdFails(Sch("1", old), Sch("2", new), Opts, Md) = {}
LqStepsNeeded == Ready => \A i \in 1..Len(LqPlan) : Lq(RemoveAt(LqPlan, i)) # {}
SqlStepsNeeded == Ready => \A i \in 1..Len(SqlPlan) : Sql(RemoveAt(SqlPlan, i)) # {}
MdSectionsNeeded == Ready => \A i \in 1..Len(Md.sections) :
    DiffMdFails(Sch("1", old), Sch("2", new), Opts, [Md EXCEPT !.sections = RemoveAt(@, i)]) # {}
\* a renamed table is not a dropped and a new one
RenameByCopyRejected == Ready /\ Renames # <<>> =>
    LET p == Renames[1]
        k == CHOOSE i \in 1..Len(LqPlan) : LqPlan[i].op = "renameTable" /\ LqPlan[i].table = p[1].name
    IN  Lq(SubSeq(LqPlan, 1, k - 1) \o << [op |-> "dropTable", table |-> p[1].name] >> \o << Inline(Create(LqCol, p[2], p[2].desc)[1]) >> \o AddUq(p[2])
           \o SubSeq(LqPlan, k + Len(Rename(p)), Len(LqPlan))) # {}
\* tables outside the filter are left alone whatever happens to them
OthersUntouched == Ready => \A i \in 1..Len(LqPlan) : LqPlan[i].table \in NameSet(A) \cup NameSet(B)

Emit == Ready => PrintT("CASE " \o ToJson([old |-> old, new |-> new, groups |-> filter]))
=============================================================================
