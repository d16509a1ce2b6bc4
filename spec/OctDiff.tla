------------------------------- MODULE OctDiff ------------------------------
(***************************************************************************)
(* diff flyway and diff md.                                                *)
(*                                                                         *)
(* A flyway script is SQL: it is run on the MySQL database of the old      *)
(* schema and must end in the MySQL database of the new one, carrying the  *)
(* data of everything that survives.                                       *)
(***************************************************************************)
EXTENDS OctLiquibase

FlywayOpt(comments) == [comments |-> comments, tcomments |-> comments, order |-> FALSE, autoinc |-> "exact", onupdate |-> FALSE, indices |-> FALSE]
\* databases of the two versions, for tables whose comment the tool may set
CommentedDb(s, suffix) == [n \in NameSet(s.tables) |-> [MySqlDb(s, suffix)[n] EXCEPT !.comment = ByName(s.tables, n).desc]]
\* CREATE TABLE statements carry no table comment
NoTableComment(db, created) == [n \in DOMAIN db |-> IF n \in created THEN [db[n] EXCEPT !.comment = ""] ELSE db[n]]

DiffFlywayFails(from, to, opts, script) ==
    LET f == Selected(from, opts.groups)
        t == Selected(to, opts.groups)
        others == CommentedDb(Unselected(Canon(from), opts.groups), opts.suffix)
        r == Run(CommentedDb(f, opts.suffix) @@ others, ReadScript(script))
        fresh == { n \in DOMAIN r.db : r.db[n].tok = "new" }
        expected == NoTableComment(CommentedDb(t, opts.suffix) @@ others, fresh)
        both == NameSet(f.tables) \cap NameSet(t.tables)
        dd == DbDiff(expected, r.db, FlywayOpt(opts.comments))
    IN  IF r.bad # {} THEN RunFails(r)
        ELSE IF dd # {} THEN dd
        ELSE UNION { IdentityFails(ByName(f.tables, n), ByName(t.tables, n), r.db[n], opts.comments)
                     \cup OrderFails(ByName(f.tables, n), ByName(t.tables, n), r.db[n], TRUE) : n \in both }
             \cup TableIdentityFails(f, t, r.db)
             \cup UNION { Same("other-group-table", n, others[n], r.db[n]) : n \in DOMAIN others }

(***************************************************************************)
(* A markdown diff is [from, to, sections], a section is [name, items], an *)
(* item [k, a, b, c]: what happened and to which column or table.          *)
(* Renames pair an added with a removed column (table) of the same         *)
(* definition; where several candidates exist any pairing will do, so the  *)
(* report is judged by the pairing it states.                              *)
(***************************************************************************)
Item(k, a, b, c) == [k |-> k, a |-> a, b |-> b, c |-> c]
FormatType(c) == IF c.size = 0 THEN c.type
                 ELSE IF c.scale = 0 THEN c.type \o "(" \o ToString(c.size) \o ")"
                 ELSE c.type \o "(" \o ToString(c.size) \o "," \o ToString(c.scale) \o ")"
JoinSorted(names) == JoinStr(SetToSortedSeq(names), ", ")
PkNames(t) == Range(ColNames(PkCols(t)))
UqNames(t) == Range(ColNames(UqCols(t)))

ColumnItems(o, n, comments) ==
    (IF o.type # n.type \/ o.size # n.size \/ o.scale # n.scale \/ o.values # n.values
     THEN << Item("type", n.name, FormatType(o), FormatType(n)) >> ELSE <<>>)
    \o (IF comments /\ o.desc # n.desc THEN << Item("column comment", n.name, n.desc, "") >> ELSE <<>>)
    \o (IF o.notnull # n.notnull THEN << Item(IF n.notnull THEN "not null" ELSE "nullable", n.name, "", "") >> ELSE <<>>)
    \o (IF o.autoinc # n.autoinc THEN << Item(IF n.autoinc THEN "auto" ELSE "no auto", n.name, "", "") >> ELSE <<>>)
    \o (IF o.default # n.default THEN << IF n.default = "" THEN Item("no default", n.name, "", "")
                                         ELSE Item("default", n.name, n.default, "") >> ELSE <<>>)

Items(sections, n) == IF HasName(sections, n) THEN ByName(sections, n).items ELSE <<>>
\* a pairing of removed and added things is right if it is injective, matches keys, and is maximal
PairingFails(pairs, removed, added, Key(_), clause, where) ==
    LET rn == { pairs[i].a : i \in 1..Len(pairs) }
        an == { pairs[i].b : i \in 1..Len(pairs) }
    IN  Holds(Cardinality(rn) = Len(pairs) /\ Cardinality(an) = Len(pairs), clause \o "-repeated", where)
        \cup UNION { Holds(HasName(removed, pairs[i].a) /\ HasName(added, pairs[i].b)
                           /\ Key(ByName(removed, pairs[i].a)) = Key(ByName(added, pairs[i].b)),
                           clause \o "-wrong", where \o ": " \o pairs[i].a \o " to " \o pairs[i].b) : i \in 1..Len(pairs) }
        \cup UNION { UNION { Holds(removed[i].name \in rn \/ added[j].name \in an \/ Key(removed[i]) # Key(added[j]),
                                   clause \o "-missed", where \o ": " \o removed[i].name \o " to " \o added[j].name)
                             : j \in 1..Len(added) } : i \in 1..Len(removed) }

\* items of a table that exists in both versions, given the stated column renames
TableItems(o, n, comments, pairs) ==
    LET gone == Gone(o.columns, n.columns)
        come == Gone(n.columns, o.columns)
        rn == { pairs[i].a : i \in 1..Len(pairs) }
        an == { pairs[i].b : i \in 1..Len(pairs) }
        kept == SelectSeq(n.columns, LAMBDA c : HasName(o.columns, c.name))
        dropped == SelectSeq(gone, LAMBDA c : c.name \notin rn)
        added == SelectSeq(come, LAMBDA c : c.name \notin an)
    IN  (IF comments /\ o.desc # n.desc THEN << Item("table comment", n.desc, "", "") >> ELSE <<>>)
        \o pairs
        \o [i \in 1..Len(added) |-> Item("add", added[i].name, "", "")]
        \o [i \in 1..Len(dropped) |-> Item("drop", dropped[i].name, "", "")]
        \o Concat([i \in 1..Len(kept) |-> ColumnItems(ByName(o.columns, kept[i].name), kept[i], comments)])
        \o (IF PkNames(o) = PkNames(n) THEN <<>> ELSE << Item("pk", JoinSorted(PkNames(o)), JoinSorted(PkNames(n)), "") >>)
        \o (IF UqNames(o) = UqNames(n) THEN <<>>
            ELSE (IF UqNames(o) = {} THEN <<>> ELSE << Item("no unique", JoinSorted(UqNames(o)), "", "") >>)
                 \o (IF UqNames(n) = {} THEN <<>> ELSE << Item("unique", JoinSorted(UqNames(n)), "", "") >>))

SameBag(clause, where, exp, obs) ==
    LET n(seq, x) == Len(SelectSeq(seq, LAMBDA y : y = x)) IN
    UNION { IF n(exp, x) > n(obs, x) THEN {<<clause \o "-missing", where, ToString(x), "">>}
            ELSE IF n(exp, x) < n(obs, x) THEN {<<clause \o "-extra", where, "", ToString(x)>>} ELSE {}
            : x \in Range(exp) \cup Range(obs) }

DiffMdFails(from, to, opts, md) ==
    LET f == Selected(from, opts.groups)
        t == Selected(to, opts.groups)
        all == Concat([i \in 1..Len(md.sections) |-> md.sections[i].items])
        both == SelectSeq(t.tables, LAMBDA x : HasName(f.tables, x.name))
        gone == Gone(f.tables, t.tables)
        come == Gone(t.tables, f.tables)
        tpairs == SelectSeq(all, LAMBDA x : x.k = "rename table")
        rn == { tpairs[i].a : i \in 1..Len(tpairs) }
        an == { tpairs[i].b : i \in 1..Len(tpairs) }
        newOf(n) == ByName(come, (CHOOSE p \in Range(tpairs) : p.a = n).b)
        oldOf(n) == ByName(gone, (CHOOSE p \in Range(tpairs) : p.b = n).a)
        cpairs(n) == SelectSeq(Items(md.sections, n), LAMBDA x : x.k = "rename")
        pf == PairingFails(tpairs, gone, come, LAMBDA x : x.columns, "table-rename", "")
        expected(n) ==
            (IF HasName(both, n) THEN TableItems(ByName(f.tables, n), ByName(t.tables, n), opts.comments, cpairs(n)) ELSE <<>>)
            \o (IF HasName(gone, n) THEN
                    IF n \in rn THEN << Item("rename table", n, newOf(n).name, "") >>
                                     \o (IF UqNames(newOf(n)) = {} THEN <<>>
                                         ELSE << Item("no unique", JoinSorted(UqNames(newOf(n))), "", "") >>)
                    ELSE << Item("drop table", "", "", "") >>
                ELSE <<>>)
            \o (IF HasName(come, n) THEN
                    IF n \in an THEN (IF UqNames(oldOf(n)) = {} THEN <<>>
                                      ELSE << Item("unique", JoinSorted(UqNames(oldOf(n))), "", "") >>)
                                     \o (IF opts.comments /\ oldOf(n).desc # ByName(come, n).desc
                                         THEN << Item("table comment", ByName(come, n).desc, "", "") >> ELSE <<>>)
                    ELSE << Item("create table", "", "", "") >>
                ELSE <<>>)
        names == NameSet(f.tables) \cup NameSet(t.tables)
    IN  Same("md-from", "", from.version, md.from) \cup Same("md-to", "", to.version, md.to)
        \cup Holds(\A i \in 1..(Len(md.sections) - 1) : StrLess(md.sections[i].name, md.sections[i + 1].name), "md-headings-not-sorted",
                   ToString(Names(md.sections)))
        \cup UNION { Holds(md.sections[i].items # <<>>, "md-empty-section", md.sections[i].name)
                     \cup Holds(md.sections[i].name \in names, "md-unknown-table", md.sections[i].name) : i \in 1..Len(md.sections) }
        \cup UNION { PairingFails(cpairs(n), Gone(ByName(f.tables, n).columns, ByName(t.tables, n).columns),
                                  Gone(ByName(t.tables, n).columns, ByName(f.tables, n).columns),
                                  LAMBDA c : RenKey(c, opts.comments), "column-rename", n) : n \in NameSet(both) }
        \cup IF pf # {} THEN pf
             ELSE UNION { SameBag("md-item", n, expected(n), Items(md.sections, n)) : n \in names }
=============================================================================
