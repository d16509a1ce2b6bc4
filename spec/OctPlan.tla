------------------------------- MODULE OctPlan ------------------------------
(***************************************************************************)
(* A planner, written in TLA+, that migrates one version of a table        *)
(* (columns `old`) to another (`new`): as a liquibase changelog, as SQL    *)
(* and as a markdown report.                                               *)
(*                                                                         *)
(* The models that extend this module enumerate pairs of versions.  The    *)
(* theorems say that what the specification demands of the three diff      *)
(* commands is met by the plan on every pair - the demands can be met -    *)
(* and is no longer met when any one step is left out, or when data is     *)
(* thrown away on the way - they are not vacuous.                          *)
(***************************************************************************)
EXTENDS Octopus, Json

VARIABLES old, new
vars == <<old, new>>
Ready == new # <<>>

NoCol == [name |-> "", type |-> "int32", desc |-> "", size |-> 0, scale |-> 0, notnull |-> FALSE, pk |-> FALSE, unique |-> FALSE,
          autoinc |-> FALSE, default |-> "", onupdate |-> "", values |-> <<>>, ref |-> <<>>]
Tab(cs) == [name |-> "tab", desc |-> "", group |-> "", className |-> "", indices |-> <<>>, columns |-> cs]
Sch(v, cs) == [author |-> "me", name |-> "", version |-> v, tables |-> <<Tab(cs)>>]
O == Tab(old)
N == Tab(new)
Opts == [author |-> "", groups |-> "", suffix |-> "_uq", comments |-> TRUE]

(***************************************************************************)
(* The planner.                                                            *)
(***************************************************************************)
\* pair every added column with the first unused removed one of the same definition
RECURSIVE Pairs(_, _)
Pairs(added, removed) ==
    IF added = <<>> THEN <<>>
    ELSE LET m == { j \in 1..Len(removed) : RenKey(removed[j], TRUE) = RenKey(added[1], TRUE) }
         IN  IF m = {} THEN Pairs(Tail(added), removed)
             ELSE LET j == CHOOSE x \in m : \A y \in m : x <= y
                  IN  << <<removed[j].name, added[1].name>> >> \o Pairs(Tail(added), RemoveAt(removed, j))
Renames == Pairs(Gone(new, old), Gone(old, new))
From(n) == IF HasName(old, n) THEN n ELSE IF \E p \in Range(Renames) : p[2] = n THEN (CHOOSE p \in Range(Renames) : p[2] = n)[1] ELSE ""
Dropped == SelectSeq(Gone(old, new), LAMBDA c : \A p \in Range(Renames) : p[1] # c.name)
Stays == { i \in 1..Len(new) : From(new[i].name) # "" }
Renamed(S) == { IF \E p \in Range(Renames) : p[1] = x THEN (CHOOSE p \in Range(Renames) : p[1] = x)[2] ELSE x : x \in S }
NewPk == Renamed(PkNames(O)) # PkNames(N)
NewUq == Renamed(UqNames(O)) # UqNames(N)
NotNull(c) == c.notnull \/ c.pk

When(cond, seq) == IF cond THEN seq ELSE <<>>
Each(S(_), n) == Concat([i \in 1..n |-> S(i)])
Prepare == When(NewUq /\ UqNames(O) # {}, << [op |-> "dropUnique", table |-> "tab", name |-> "tab_uq"] >>)
          \o When(NewPk /\ PkNames(O) # {}, << [op |-> "dropPk", table |-> "tab"] >>)
          \o [i \in 1..Len(Renames) |-> [op |-> "renameColumn", table |-> "tab", column |-> Renames[i][1], to |-> Renames[i][2],
                                         dtype |-> Ty("", <<>>)]]
Drops == [i \in 1..Len(Dropped) |-> [op |-> "dropColumn", table |-> "tab", column |-> Dropped[i].name]]
AddUq == When(UqCols(N) # <<>>, << [op |-> "addUnique", table |-> "tab", name |-> "tab_uq", cols |-> ColNames(UqCols(N))] >>)
Finish == When(NewPk /\ PkNames(N) # {}, << [op |-> "addPk", table |-> "tab", cols |-> ColNames(PkCols(N))] >>)
         \o When(NewUq, AddUq)
Place(i) == IF i = 1 THEN "" ELSE new[i - 1].name

LqAdd(i) == When(i \notin Stays, << [op |-> "addColumn", table |-> "tab",
                cols |-> << [pk |-> FALSE, unique |-> FALSE, after |-> Place(i)] @@ LqCol(new[i]) >>] >>)
LqChange(i) ==
    IF i \notin Stays THEN <<>>
    ELSE LET o == ByName(old, From(new[i].name))  n == new[i]
             step(op, more) == << more @@ [op |-> op, table |-> "tab", column |-> n.name, dtype |-> Ty("", <<>>), fill |-> ""] >>
         IN  When(LqType(o) # LqType(n), << [op |-> "modifyType", table |-> "tab", column |-> n.name, type |-> LqType(n)] >>)
             \o When(NotNull(o) /\ ~NotNull(n), step("dropNotNull", EmptyDb))
             \o When(~NotNull(o) /\ n.notnull /\ ~n.pk, step("notNull", EmptyDb))
             \o When(LqValue(o) # LqValue(n), IF LqValue(n) = NoVal THEN step("dropDefault", EmptyDb) ELSE step("setDefault", [value |-> LqValue(n)]))
             \o When(~o.autoinc /\ n.autoinc, step("autoInc", EmptyDb))
             \o When(o.desc # n.desc, step("columnComment", [comment |-> n.desc]))
LqPlan == Prepare \o Each(LqAdd, Len(new)) \o Drops \o Each(LqChange, Len(new)) \o Finish
Log(steps) == [i \in 1..Len(steps) |-> [id |-> ToString(i), author |-> "me", runs |-> TRUE, changes |-> <<steps[i]>>]]

\* in SQL a column can also be put first, and a changed column is stated in full
SqlDef(c) == [after |-> ""] @@ MySqlCol(c)
SqlAdd(i) == When(i \notin Stays, << [op |-> "addColumn", table |-> "tab",
                cols |-> << [MySqlCol(new[i]) EXCEPT !.onupdate = NoVal] @@ [after |-> IF i = 1 THEN First ELSE Place(i)] >>] >>)
SqlChange(i) ==
    IF i \notin Stays THEN <<>>
    ELSE LET o == ByName(old, From(new[i].name))  n == new[i]
         IN  When([MySqlCol(o) EXCEPT !.notnull = NotNull(o) \/ n.pk, !.name = n.name, !.onupdate = NoVal] # [MySqlCol(n) EXCEPT !.notnull = NotNull(n), !.onupdate = NoVal],
                << [op |-> "modifyColumn", table |-> "tab", column |-> n.name, def |-> [MySqlCol(n) EXCEPT !.notnull = NotNull(n)]] >>)
SqlPlan == Prepare \o Each(SqlAdd, Len(new)) \o Drops \o Each(SqlChange, Len(new)) \o Finish

MdItems == TableItems(O, N, TRUE, [i \in 1..Len(Renames) |-> Item("rename", Renames[i][1], Renames[i][2], "")])
Md(items) == [from |-> "1", to |-> "2", sections |-> When(items # <<>>, << [name |-> "tab", items |-> items] >>)]

(***************************************************************************)
(* Theorems.                                                               *)
(***************************************************************************)
Lq(steps) == DiffLiquibaseFails(Sch("1", old), Sch("2", new), Opts, Log(steps))
Sql(steps) == DiffFlywayFails(Sch("1", old), Sch("2", new), Opts, steps)
MdF(items) == DiffMdFails(Sch("1", old), Sch("2", new), Opts, Md(items))
LqPlanConforms == Ready => Lq(LqPlan) = {}
SqlPlanConforms == Ready => Sql(SqlPlan) = {}
MdConforms == Ready => MdF(MdItems) = {}
\* every step matters (the not null of a new primary key column comes with the key)
LqStepsNeeded == Ready => \A i \in 1..Len(LqPlan) : Lq(RemoveAt(LqPlan, i)) # {}
SqlStepsNeeded == Ready => \A i \in 1..Len(SqlPlan) : Sql(RemoveAt(SqlPlan, i)) # {}
MdItemsNeeded == Ready => \A i \in 1..Len(MdItems) : MdF(RemoveAt(MdItems, i)) # {}\* the tempting ways that lose data are turned away
Recreate == << [op |-> "dropTable", table |-> "tab"],
               [op |-> "createTable", table |-> "tab", cols |-> [i \in 1..Len(new) |-> [pk |-> new[i].pk, unique |-> FALSE, after |-> ""] @@ LqCol(new[i])],
                pk |-> <<>>, uqs |-> <<>>, idx |-> <<>>, comment |-> ""] >> \o AddUq
RecreationRejected == Ready => Lq(Recreate) # {}
AsNew(c) == [pk |-> FALSE, unique |-> FALSE, after |-> ""] @@ LqCol(c)
RenameByCopyRejected == Ready /\ Renames # <<>> =>
    LET k == CHOOSE i \in 1..Len(LqPlan) : LqPlan[i].op = "renameColumn"
        c == ByName(new, LqPlan[k].to)
    IN  Lq(SubSeq(LqPlan, 1, k - 1)
           \o << [op |-> "addColumn", table |-> "tab", cols |-> <<AsNew(c)>>], [op |-> "dropColumn", table |-> "tab", column |-> LqPlan[k].column] >>
           \o SubSeq(LqPlan, k + 1, Len(LqPlan))) # {}

\* every pair is a case for the real tool
Emit == Ready => PrintT("CASE " \o ToJson([old |-> old, new |-> new]))
=============================================================================
