------------------------------- MODULE OctDb -------------------------------
(***************************************************************************)
(* A relational database as a state machine.  The state `db` maps table    *)
(* names to tables; every DDL statement or liquibase change is an action   *)
(* with an enabling condition (what the database server would reject) and  *)
(* an effect.  Columns and tables carry an identity `tok` that rename      *)
(* keeps and drop/create does not, so that a run of changes can be judged  *)
(* by the data it preserves as well as by the definition it ends in.       *)
(*                                                                         *)
(* table  == [cols, pk, uqs, idx, comment, tok]                            *)
(* column == [name, type, notnull, autoinc, default, onupdate, comment,    *)
(*            tok]                                                         *)
(* type   == [base, args]   value == [k, v], k in {"none", "lit", "fn"}    *)
(***************************************************************************)
EXTENDS OctSchema

EmptyDb == [x \in {} |-> 0]
NoVal == [k |-> "none", v |-> ""]
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

ColIdx(t, n) == { i \in 1..Len(t.cols) : t.cols[i].name = n }
HasCol(t, n) == ColIdx(t, n) # {}
TheCol(t, n) == t.cols[CHOOSE i \in ColIdx(t, n) : TRUE]
NoDup(seq) == Cardinality(Range(seq)) = Len(seq)
RenIn(S, a, b) == { IF x = a THEN b ELSE x : x \in S }
RenSeq(s, a, b) == [i \in 1..Len(s) |-> IF s[i] = a THEN b ELSE s[i]]

SetCol(t, n, F(_)) == [t EXCEPT !.cols = [i \in 1..Len(@) |-> IF @[i].name = n THEN F(@[i]) ELSE @[i]]]

\* a column definition as it appears in a change, given identity k
MkCol(d, k) == [name |-> d.name, type |-> d.type, notnull |-> d.notnull, autoinc |-> d.autoinc,
                default |-> d.default, onupdate |-> d.onupdate, comment |-> d.comment, tok |-> k]

First == "<first>"
RECURSIVE InsertCol(_, _, _)
InsertCol(cols, c, after) ==
    IF after = "" THEN Append(cols, c)
    ELSE IF after = First THEN <<c>> \o cols
    ELSE LET p == CHOOSE i \in 1..Len(cols) : cols[i].name = after
         IN  SubSeq(cols, 1, p) \o <<c>> \o SubSeq(cols, p + 1, Len(cols))

\* sequential semantics of one addColumn change with several columns
RECURSIVE AddCols(_, _)
AddCols(cols, ds) ==
    IF ds = <<>> THEN cols
    ELSE AddCols(InsertCol(cols, MkCol(ds[1], "new"), ds[1].after), Tail(ds))
RECURSIVE AddColsBad(_, _)
AddColsBad(names, ds) ==      \* reasons why the addition fails
    IF ds = <<>> THEN {}
    ELSE Holds(ds[1].name \notin names, "add-existing-column", ds[1].name)
         \cup Holds(ds[1].after \in {"", First} \/ ds[1].after \in names, "after-missing-column", ds[1].after)
         \cup AddColsBad(names \cup {ds[1].name}, Tail(ds))

ConstraintBad(db, tn, cols) ==
    LET t == db[tn] IN
    Holds(cols # <<>>, "constraint-without-columns", tn)
    \cup Holds(NoDup(cols), "constraint-repeats-column", tn)
    \cup UNION { Holds(HasCol(t, cols[i]), "constraint-on-missing-column", tn \o "." \o cols[i]) : i \in 1..Len(cols) }

(***************************************************************************)
(* An index declared without a name gets the name of its first column, or  *)
(* that name with _2, _3, ... when another key has it.                     *)
(***************************************************************************)
FreeName(n, used) ==
    IF n \notin used THEN n
    ELSE LET k == CHOOSE k \in 2..99 : n \o "_" \o ToString(k) \notin used /\ \A j \in 2..(k - 1) : n \o "_" \o ToString(j) \in used
         IN  n \o "_" \o ToString(k)
Named(c) ==
    LET given == { c.uqs[i].name : i \in 1..Len(c.uqs) } \cup { c.idx[i].name : i \in 1..Len(c.idx) }
        step(acc, x) == LET n == IF x.name # "" \/ x.cols = <<>> THEN x.name ELSE FreeName(x.cols[1], given \cup { acc[i].name : i \in 1..Len(acc) })
                        IN  Append(acc, [name |-> n, cols |-> x.cols])
    IN  [c EXCEPT !.idx = FoldLeft(step, <<>>, @)]

CreateBad(db, c0) ==
    LET c == Named(c0)
        ns == { c.cols[i].name : i \in 1..Len(c.cols) } IN
    Holds(c.table \notin DOMAIN db, "create-existing-table", c.table)
    \cup Holds(c.cols # <<>>, "create-without-columns", c.table)
    \cup Holds(Cardinality(ns) = Len(c.cols), "create-repeats-column", c.table)
    \cup Holds(NoDup(c.pk) /\ Range(c.pk) \subseteq ns, "create-bad-primary-key", c.table)
    \cup UNION { Holds(c.uqs[i].cols # <<>> /\ NoDup(c.uqs[i].cols) /\ Range(c.uqs[i].cols) \subseteq ns,
                       "create-bad-unique", c.table) : i \in 1..Len(c.uqs) }
    \cup Holds(Cardinality({ c.uqs[i].name : i \in 1..Len(c.uqs) } \cup { c.idx[i].name : i \in 1..Len(c.idx) })
                  = Len(c.uqs) + Len(c.idx), "create-repeats-key-name", c.table)
    \cup UNION { Holds(c.idx[i].cols # <<>> /\ NoDup(c.idx[i].cols) /\ Range(c.idx[i].cols) \subseteq ns,
                       "create-bad-index", c.table) : i \in 1..Len(c.idx) }

ColOps == {"dropColumn", "renameColumn", "modifyType", "modifyColumn", "notNull", "dropNotNull", "setDefault", "dropDefault",
           "autoInc", "columnComment"}
TabOps == {"dropTable", "renameTable", "addColumn", "addPk", "dropPk", "addUnique", "dropUnique", "tableComment"} \cup ColOps

(***************************************************************************)
(* Rejected(db, c): why the server would reject change c in state db.      *)
(* {} means the action is enabled.                                         *)
(***************************************************************************)
Rejected(db, c) ==
    IF c.op = "createTable" THEN CreateBad(db, c)
    ELSE IF c.op \notin TabOps THEN {<<"unknown-change", c.op, c.table, "">>}
    ELSE IF c.table \notin DOMAIN db THEN {<<"missing-table", c.op, c.table, "">>}
    ELSE LET t == db[c.table] IN
    IF c.op \in ColOps /\ ~HasCol(t, c.column) THEN {<<"missing-column", c.op, c.table, c.column>>}
    ELSE CASE c.op = "renameTable" -> Holds(c.to \notin DOMAIN db, "rename-to-existing-table", c.to)
           [] c.op = "addColumn" -> Holds(c.cols # <<>>, "add-no-column", c.table)
                                    \cup AddColsBad(NameSet(t.cols), c.cols)
           [] c.op = "dropColumn" -> Holds(c.column \notin t.pk, "drop-column-of-primary-key", c.table \o "." \o c.column)
                                     \cup Holds(\A u \in DOMAIN t.uqs : c.column \notin t.uqs[u],
                                                "drop-column-of-unique-constraint", c.table \o "." \o c.column)
                                     \cup Holds(Len(t.cols) > 1, "drop-last-column", c.table)
           [] c.op = "dropNotNull" -> Holds(c.column \notin t.pk, "nullable-primary-key", c.table \o "." \o c.column)
           [] c.op = "renameColumn" -> Holds(~HasCol(t, c.to), "rename-to-existing-column", c.table \o "." \o c.to)
           [] c.op = "addPk" -> Holds(t.pk = {}, "second-primary-key", c.table)
                                \cup ConstraintBad(db, c.table, c.cols)
           [] c.op = "dropPk" -> Holds(t.pk # {}, "drop-missing-primary-key", c.table)
           [] c.op = "addUnique" -> Holds(c.name \notin DOMAIN t.uqs, "add-existing-unique", c.name)
                                    \cup ConstraintBad(db, c.table, c.cols)
           [] c.op = "dropUnique" -> Holds(c.name \in DOMAIN t.uqs, "drop-missing-unique", c.table \o "/" \o c.name)
           [] OTHER -> {}

UqMap(us) == [n \in { us[i].name : i \in 1..Len(us) } |-> Range((CHOOSE u \in Range(us) : u.name = n).cols)]
IxMap(us) == [n \in { us[i].name : i \in 1..Len(us) } |-> (CHOOSE u \in Range(us) : u.name = n).cols]

\* primary key columns are not null, and stay so when the key is dropped
NotNullIn(cols, pk) == [i \in 1..Len(cols) |-> IF cols[i].name \in pk THEN [cols[i] EXCEPT !.notnull = TRUE] ELSE cols[i]]
Created(c0, k) ==
    LET c == Named(c0) IN
    [cols |-> NotNullIn([i \in 1..Len(c.cols) |-> MkCol(c.cols[i], IF k = "new" THEN k ELSE k \o "." \o c.cols[i].name)], Range(c.pk)),
     pk |-> Range(c.pk), uqs |-> UqMap(c.uqs), idx |-> IxMap(c.idx), comment |-> c.comment, tok |-> k]

Effect(db, c) ==
    IF c.op = "createTable" THEN Put(db, c.table, Created(c, "new"))
    ELSE LET t == db[c.table] IN
    CASE c.op = "dropTable"   -> Del(db, c.table)
      [] c.op = "renameTable" -> Put(Del(db, c.table), c.to, t)
      [] c.op = "addColumn"   -> Put(db, c.table, [t EXCEPT !.cols = AddCols(@, c.cols)])
      [] c.op = "dropColumn"  -> Put(db, c.table, [t EXCEPT !.cols = SelectSeq(@, LAMBDA x : x.name # c.column),
                                   !.idx = [n \in DOMAIN @ |-> SelectSeq(@[n], LAMBDA x : x # c.column)]])
      [] c.op = "renameColumn" ->
            Put(db, c.table, [SetCol(t, c.column, LAMBDA x : [x EXCEPT !.name = c.to]) EXCEPT
                                !.pk = RenIn(@, c.column, c.to),
                                !.uqs = [n \in DOMAIN @ |-> RenIn(@[n], c.column, c.to)],
                                !.idx = [n \in DOMAIN @ |-> RenSeq(@[n], c.column, c.to)]])
      [] c.op = "modifyType"  -> Put(db, c.table, SetCol(t, c.column, LAMBDA x : [x EXCEPT !.type = c.type]))
      [] c.op = "modifyColumn" -> Put(db, c.table, SetCol(t, c.column,
                                   LAMBDA x : [MkCol(c.def, x.tok) EXCEPT !.notnull = @ \/ c.column \in t.pk]))
      [] c.op = "notNull"     -> Put(db, c.table, SetCol(t, c.column, LAMBDA x : [x EXCEPT !.notnull = TRUE]))
      [] c.op = "dropNotNull" -> Put(db, c.table, SetCol(t, c.column, LAMBDA x : [x EXCEPT !.notnull = FALSE]))
      [] c.op = "setDefault"  -> Put(db, c.table, SetCol(t, c.column, LAMBDA x : [x EXCEPT !.default = c.value]))
      [] c.op = "dropDefault" -> Put(db, c.table, SetCol(t, c.column, LAMBDA x : [x EXCEPT !.default = NoVal]))
      [] c.op = "autoInc"     -> Put(db, c.table, SetCol(t, c.column, LAMBDA x : [x EXCEPT !.autoinc = TRUE]))
      [] c.op = "columnComment" -> Put(db, c.table, SetCol(t, c.column, LAMBDA x : [x EXCEPT !.comment = c.comment]))
      [] c.op = "tableComment"  -> Put(db, c.table, [t EXCEPT !.comment = c.comment])
      [] c.op = "addPk"       -> Put(db, c.table, [t EXCEPT !.pk = Range(c.cols), !.cols = NotNullIn(@, Range(c.cols))])
      [] c.op = "dropPk"      -> Put(db, c.table, [t EXCEPT !.pk = {}])
      [] c.op = "addUnique"   -> Put(db, c.table, [t EXCEPT !.uqs = Put(@, c.name, Range(c.cols))])
      [] c.op = "dropUnique"  -> Put(db, c.table, [t EXCEPT !.uqs = Del(@, c.name)])

(***************************************************************************)
(* Running a list of changes: stops at the first rejected one.             *)
(***************************************************************************)
RECURSIVE RunFrom(_, _, _)
RunFrom(db, cs, i) ==
    IF i > Len(cs) THEN [db |-> db, bad |-> {}, at |-> 0]
    ELSE LET r == Rejected(db, cs[i]) IN
         IF r # {} THEN [db |-> db, bad |-> r, at |-> i]
         ELSE RunFrom(Effect(db, cs[i]), cs, i + 1)
Run(db, cs) == RunFrom(db, cs, 1)

(***************************************************************************)
(* Comparing two databases.  opt.comments, opt.order, opt.autoinc etc.     *)
(* say which parts a given backend represents.                             *)
(***************************************************************************)
DbDiffCol(et, ot, c, o, where, opt) ==
    Same("db-column-type", where, c.type, o.type)
    \cup Same("db-column-notnull", where, c.notnull, o.notnull)
    \cup (IF opt.autoinc = "exact" THEN Same("db-column-autoinc", where, c.autoinc, o.autoinc)
          ELSE Holds(c.autoinc => o.autoinc, "db-column-autoinc", where))
    \cup Same("db-column-default", where, c.default, o.default)
    \cup (IF opt.onupdate THEN Same("db-column-onupdate", where, c.onupdate, o.onupdate) ELSE {})
    \cup (IF opt.comments THEN Same("db-column-comment", where, c.comment, o.comment) ELSE {})

DbDiffTable(e, o, where, opt) ==
    (IF NameSet(e.cols) # NameSet(o.cols) \/ Len(e.cols) # Len(o.cols)
     THEN {<<"db-columns", where, ToString(Names(e.cols)), ToString(Names(o.cols))>>}
     ELSE UNION { DbDiffCol(e, o, e.cols[i], TheCol(o, e.cols[i].name), where \o "." \o e.cols[i].name, opt) : i \in 1..Len(e.cols) }
          \cup (IF opt.order THEN Same("db-column-order", where, Names(e.cols), Names(o.cols)) ELSE {}))
    \cup Same("db-primary-key", where, e.pk, o.pk)
    \cup Same("db-unique", where, e.uqs, o.uqs)
    \cup (IF opt.indices THEN Same("db-index", where, e.idx, o.idx) ELSE {})
    \cup (IF opt.tcomments THEN Same("db-table-comment", where, e.comment, o.comment) ELSE {})

DbDiff(e, o, opt) ==
    UNION { Holds(n \in DOMAIN o, "db-missing-table", n) : n \in DOMAIN e }
    \cup UNION { Holds(n \in DOMAIN e, "db-extra-table", n) : n \in DOMAIN o }
    \cup UNION { DbDiffTable(e[n], o[n], n, opt) : n \in DOMAIN e \cap DOMAIN o }
=============================================================================
