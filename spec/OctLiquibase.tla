---------------------------- MODULE OctLiquibase ---------------------------
(***************************************************************************)
(* Liquibase: the database a schema stands for in liquibase's terms, what  *)
(* a changelog does to a database, and what `generate liquibase` and       *)
(* `diff liquibase` must write.                                            *)
(* A changelog is a sequence of [id, author, runs, changes].               *)
(***************************************************************************)
EXTENDS OctMysql

LqBase(t) ==
    CASE t \in TextTypes -> "clob"
      [] t \in BlobTypes -> "blob"
      [] t = "int8" -> "tinyint"
      [] t = "int16" -> "smallint"
      [] t = "int24" -> "mediumint"
      [] t = "int32" -> "int"
      [] t = "int64" -> "bigint"
      [] OTHER -> t
LqType(c) == Ty(LqBase(c.type), IF c.type \in {"enum", "set"} THEN c.values ELSE SizeArgs(c))

\* trailing zeros of a fraction do not matter
RECURSIVE StripZeros(_)
StripZeros(v) == IF HasSuffix(v, "0") THEN StripZeros(SubSeq(v, 1, Len(v) - 1))
                 ELSE IF HasSuffix(v, ".") THEN SubSeq(v, 1, Len(v) - 1) ELSE v
CanonNum(v) == IF HasText(v, ".") THEN StripZeros(v) ELSE v

\* liquibase default values are typed
LqValue(c) ==
    IF c.default = "" THEN NoVal
    ELSE IF IsFn(c.default) THEN [k |-> "fn", v |-> FnOf(c.default)]
    ELSE CASE c.type = "boolean" -> [k |-> "bool", v |-> IF BoolLit(c.default) = "1" THEN "true" ELSE "false"]
           [] c.type \in NumTypes -> [k |-> "num", v |-> CanonNum(c.default)]
           [] c.type \in {"date", "datetime"} -> [k |-> "date", v |-> c.default]
           [] OTHER -> [k |-> "str", v |-> c.default]

LqCol(c) == [name |-> c.name, type |-> LqType(c), notnull |-> c.notnull, autoinc |-> c.autoinc,
             default |-> LqValue(c), onupdate |-> NoVal, comment |-> c.desc]
LqTable(t, suffix) ==
    Created([op |-> "createTable", table |-> t.name, cols |-> [i \in 1..Len(t.columns) |-> LqCol(t.columns[i])],
             pk |-> ColNames(PkCols(t)),
             uqs |-> IF UqCols(t) = <<>> THEN <<>> ELSE << [name |-> t.name \o suffix, cols |-> ColNames(UqCols(t))] >>,
             idx |-> <<>>, comment |-> t.desc], t.name)
LqDb(s, suffix) == [n \in NameSet(s.tables) |-> LqTable(ByName(s.tables, n), suffix)]
LqOpt(comments, tcomments) ==
    [comments |-> comments, tcomments |-> tcomments, order |-> FALSE, autoinc |-> "exact", onupdate |-> FALSE, indices |-> FALSE]

(***************************************************************************)
(* What a change does, as database actions.  A change that names the data  *)
(* type of its column also sets it (liquibase rewrites the column).        *)
(***************************************************************************)
LqColDef(d) == [name |-> d.name, type |-> d.type, notnull |-> d.notnull, autoinc |-> d.autoinc, default |-> d.default,
                onupdate |-> NoVal, comment |-> d.comment, after |-> d.after]
InlinePk(cols) == LET ps == SelectSeq(cols, LAMBDA d : d.pk) IN [i \in 1..Len(ps) |-> ps[i].name]
Retype(c, col) == IF c.dtype.base = "" THEN <<>>
                  ELSE << [op |-> "modifyType", table |-> c.table, column |-> col, type |-> c.dtype] >>
LqActions(c) ==
    CASE c.op = "createTable" ->
            << [op |-> "createTable", table |-> c.table, cols |-> [i \in 1..Len(c.cols) |-> LqColDef(c.cols[i])],
                pk |-> InlinePk(c.cols), uqs |-> <<>>, idx |-> <<>>, comment |-> c.comment] >>
      [] c.op = "addColumn" ->
            << [op |-> "addColumn", table |-> c.table, cols |-> [i \in 1..Len(c.cols) |-> LqColDef(c.cols[i])]] >>
            \o (IF InlinePk(c.cols) = <<>> THEN <<>> ELSE << [op |-> "addPk", table |-> c.table, cols |-> InlinePk(c.cols)] >>)
      [] c.op = "renameColumn" -> << c >> \o Retype(c, c.to)
      [] c.op \in {"notNull", "dropNotNull", "autoInc", "setDefault", "dropDefault"} -> << c >> \o Retype(c, c.column)
      [] OTHER -> << c >>

Concat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)
LqChanges(log) == Concat([i \in 1..Len(log) |-> log[i].changes])
LqScript(log) == LET cs == LqChanges(log) IN Concat([i \in 1..Len(cs) |-> LqActions(cs[i])])

(***************************************************************************)
(* Every changelog: unique ids, no empty change set, the right author, and *)
(* no change set that a MySQL database would skip.                         *)
(***************************************************************************)
LqShapeFails(log, author) ==
    Holds(Cardinality({ log[i].id : i \in 1..Len(log) }) = Len(log), "changeset-id-not-unique",
          ToString([i \in 1..Len(log) |-> log[i].id]))
    \cup UNION { Holds(log[i].changes # <<>>, "changeset-without-change", log[i].id)
                 \cup Same("changeset-author", log[i].id, author, log[i].author)
                 \cup Holds(log[i].runs, "changeset-skipped", log[i].id) : i \in 1..Len(log) }

\* filling nulls with a function's spelling would store the text of the function;
\* an inline unique flag must agree with the unique constraint of the table
LqDetailFails(log, s) ==
    LET cs == LqChanges(log)
        uniq(tn, n) == HasName(s.tables, tn) /\ HasName(ByName(s.tables, tn).columns, n)
                       /\ ByName(ByName(s.tables, tn).columns, n).unique
    IN  UNION { CASE cs[i].op = "notNull" -> Holds(~IsFn(cs[i].fill), "null-fill-is-a-function", cs[i].table \o "." \o cs[i].column)
                  [] cs[i].op \in {"createTable", "addColumn"} ->
                        UNION { Holds(cs[i].cols[j].unique => uniq(cs[i].table, cs[i].cols[j].name),
                                      "inline-unique", cs[i].table \o "." \o cs[i].cols[j].name) : j \in 1..Len(cs[i].cols) }
                  [] OTHER -> {} : i \in 1..Len(cs) }

(***************************************************************************)
(* generate liquibase.                                                     *)
(***************************************************************************)
GenLiquibaseFails(s, opts, log) ==
    LET sel == Selected(s, opts.groups)
        r == Run(EmptyDb, LqScript(log))
        creates == SelectSeq(LqChanges(log), LAMBDA c : c.op = "createTable")
    IN  LqShapeFails(log, s.author) \cup LqDetailFails(log, sel)
        \cup IF r.bad # {} THEN RunFails(r)
             ELSE DbDiff(LqDb(sel, opts.suffix), r.db, [LqOpt(opts.comments, TRUE) EXCEPT !.order = TRUE])
                  \cup UNION { IF ~HasName(sel.tables, creates[i].table) THEN {} ELSE
                               LET p == PkCols(ByName(sel.tables, creates[i].table))
                               IN  Same("primary-key-inline", creates[i].table,
                                        IF Len(p) = 1 THEN ColNames(p) ELSE <<>>, InlinePk(creates[i].cols)) : i \in 1..Len(creates) }
                  \cup (IF opts.comments THEN {}
                        ELSE UNION { UNION { Same("column-remarks-without-option", creates[i].cols[j].name, "", creates[i].cols[j].comment)
                                             : j \in 1..Len(creates[i].cols) } : i \in 1..Len(creates) })

(***************************************************************************)
(* Diffs.  Two schema versions; tables outside the selected groups belong  *)
(* to the old database and must come through untouched.                    *)
(***************************************************************************)
Unselected(s, groups) == [s EXCEPT !.tables = SelectSeq(s.tables, LAMBDA t : ~InGroups(t, groups))]

\* columns that a rename must match: everything but name, reference and (without comments) description
RenKey(c, comments) == [c EXCEPT !.name = "", !.ref = <<>>, !.desc = IF comments THEN @ ELSE ""]
Gone(a, b)  == SelectSeq(a, LAMBDA x : ~HasName(b, x.name))
CountIn(seq, Test(_)) == Len(SelectSeq(seq, Test))
MinNat(a, b) == IF a < b THEN a ELSE b

\* identities after the migration of table o (old definition) to n (new), given the resulting table d
IdentityFails(o, n, d, comments) ==
    LET where == n.name
        removed == Gone(o.columns, n.columns)
        added == Gone(n.columns, o.columns)
        tokOf(c) == TheCol(d, c.name).tok
        keys == { RenKey(added[i], comments) : i \in 1..Len(added) }
        olds(k) == { o.name \o "." \o removed[i].name : i \in { j \in 1..Len(removed) : RenKey(removed[j], comments) = k } }
        kept(k) == CountIn(added, LAMBDA c : RenKey(c, comments) = k /\ tokOf(c) \in olds(k))
        want(k) == MinNat(CountIn(added, LAMBDA c : RenKey(c, comments) = k), Cardinality(olds(k)))
    IN  Same("table-recreated", where, o.name, d.tok)
        \cup UNION { IF HasName(o.columns, n.columns[i].name)
                     THEN Same("column-recreated", where, o.name \o "." \o n.columns[i].name, tokOf(n.columns[i]))
                     ELSE {} : i \in 1..Len(n.columns) }
        \cup UNION { Holds(kept(k) >= want(k), "rename-not-detected", where \o " " \o ToString(olds(k))) : k \in keys }

\* column order is kept where the format can express it: survivors in the same relative order, and
\* (liquibase only: canFirst = FALSE) no new first column
OrderFails(o, n, d, canFirst) ==
    LET tokset == { d.cols[i].tok : i \in 1..Len(d.cols) }
        oldorder == SelectSeq([i \in 1..Len(o.columns) |-> o.name \o "." \o o.columns[i].name], LAMBDA k : k \in tokset)
        neworder == SelectSeq([i \in 1..Len(n.columns) |-> TheCol(d, n.columns[i].name).tok], LAMBDA k : k # "new")
        firstnew == TheCol(d, n.columns[1].name).tok = "new"
    IN  IF oldorder = neworder /\ (canFirst \/ ~firstnew) THEN Same("column-order", n.name, Names(n.columns), Names(d.cols)) ELSE {}

\* tables whose whole column list is equal count as renamed
TableKey(t) == t.columns
TableIdentityFails(f, t, db) ==
    LET removed == Gone(f.tables, t.tables)
        added == Gone(t.tables, f.tables)
        keys == { TableKey(added[i]) : i \in 1..Len(added) }
        olds(k) == { removed[i].name : i \in { j \in 1..Len(removed) : TableKey(removed[j]) = k } }
        kept(k) == CountIn(added, LAMBDA x : TableKey(x) = k /\ db[x.name].tok \in olds(k)
                                             /\ \A i \in 1..Len(x.columns) :
                                                   TheCol(db[x.name], x.columns[i].name).tok = db[x.name].tok \o "." \o x.columns[i].name)
        want(k) == MinNat(CountIn(added, LAMBDA x : TableKey(x) = k), Cardinality(olds(k)))
    IN  UNION { Holds(kept(k) >= want(k), "table-rename-not-detected", ToString(olds(k))) : k \in keys }
        \cup UNION { IF HasName(f.tables, t.tables[i].name)
                     THEN {} ELSE Holds(db[t.tables[i].name].tok \in {"new"} \cup { removed[j].name : j \in 1..Len(removed) },
                                        "table-identity", t.tables[i].name) : i \in 1..Len(t.tables) }

\* the part of a column the liquibase database represents
LqDef(c, comments) == [LqCol(c) EXCEPT !.comment = IF comments THEN @ ELSE ""]
LqTableDef(t, comments) == [cols |-> [i \in 1..Len(t.columns) |-> LqDef(t.columns[i], comments)],
                            pk |-> ColNames(PkCols(t)), uq |-> ColNames(UqCols(t)), comment |-> IF comments THEN t.desc ELSE ""]
Untouched(f, t, comments) ==
    { n \in NameSet(f.tables) \cap NameSet(t.tables) :
        LqTableDef(ByName(f.tables, n), comments) = LqTableDef(ByName(t.tables, n), comments) }

DiffLiquibaseFails(from, to, opts, log) ==
    LET f == Selected(from, opts.groups)
        t == Selected(to, opts.groups)
        others == LqDb(Unselected(Canon(from), opts.groups), opts.suffix)
        r == Run(LqDb(f, opts.suffix) @@ others, LqScript(log))
        expected == LqDb(t, opts.suffix) @@ others
        same == Untouched(f, t, opts.comments)
        cs == LqChanges(log)
        bothNames == NameSet(f.tables) \cap NameSet(t.tables)
        dd == DbDiff(expected, r.db, LqOpt(opts.comments, opts.comments))
    IN  LqShapeFails(log, IF opts.author # "" THEN opts.author ELSE to.author) \cup LqDetailFails(log, t)
        \cup UNION { Holds(cs[i].table \notin same, "unchanged-table-touched", cs[i].op \o " " \o cs[i].table) : i \in 1..Len(cs) }
        \cup Holds(log # <<>> \/ DbDiff(expected, LqDb(f, opts.suffix) @@ others, LqOpt(opts.comments, opts.comments)) = {},
                   "diff-is-empty-but-databases-differ", "")
        \cup IF r.bad # {} THEN RunFails(r)
             ELSE IF dd # {} THEN dd
             ELSE UNION { IdentityFails(ByName(f.tables, n), ByName(t.tables, n), r.db[n], opts.comments)
                          \cup OrderFails(ByName(f.tables, n), ByName(t.tables, n), r.db[n], FALSE) : n \in bothNames }
                  \cup TableIdentityFails(f, t, r.db)
                  \cup UNION { Same("other-group-table", n, others[n], r.db[n]) : n \in DOMAIN others }
=============================================================================
