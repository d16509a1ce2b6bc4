------------------------------- MODULE MC_Refs ------------------------------
(***************************************************************************)
(* References, exhaustively: up to MaxRefs references among three tables,  *)
(* to any of them (the own one included), with every relationship, every   *)
(* membership of a group and every order of the tables.  What the back     *)
(* ends and the workbook keep of them is checked for agreement.            *)
(***************************************************************************)
EXTENDS Octopus, Json

CONSTANTS MaxRefs, Rels, GroupSets, Orders

FewGroups == {<<"x", "x", "x">>}
MoreGroups == FewGroups \cup {<<"x", "y", "x">>, <<"", "y", "x">>}
TwoOrders == {<<1, 2, 3>>, <<3, 1, 2>>}
AllOrders == TwoOrders \cup {<<2, 3, 1>>}

VARIABLES refs, groups, order
vars == <<refs, groups, order>>

TabName == <<"ant", "bee", "cow">>
Slots == (1..3) \X (1..2)                               \* two columns in every table may refer
Ref == [slot : Slots, to : 1..3, rel : Rels]
Before(a, b) == a.slot[1] < b.slot[1] \/ (a.slot[1] = b.slot[1] /\ a.slot[2] < b.slot[2])
Init == refs = <<>> /\ groups \in GroupSets /\ order \in Orders
Next == /\ Len(refs) < MaxRefs
        /\ \E r \in Ref : (IF refs = <<>> THEN TRUE ELSE Before(refs[Len(refs)], r)) /\ refs' = Append(refs, r)
        /\ UNCHANGED <<groups, order>>

NoC == [name |-> "", type |-> "int64", desc |-> "", size |-> 0, scale |-> 0, notnull |-> FALSE, pk |-> FALSE, unique |-> FALSE,
        autoinc |-> FALSE, default |-> "", onupdate |-> "", values |-> <<>>, ref |-> <<>>]
RefOf(t, k) == LET rs == SelectSeq(refs, LAMBDA r : r.slot = <<t, k>>) IN
               IF rs = <<>> THEN <<>> ELSE <<[table |-> TabName[rs[1].to], column |-> "id", relationship |-> rs[1].rel]>>
Tb(t) == [name |-> TabName[t], desc |-> "", group |-> groups[t], className |-> "", indices |-> <<>>,
          columns |-> <<[NoC EXCEPT !.name = "id", !.pk = TRUE, !.notnull = TRUE],
                        [NoC EXCEPT !.name = "link_a", !.ref = RefOf(t, 1)], [NoC EXCEPT !.name = "link_b", !.ref = RefOf(t, 2)]>>]
S == [author |-> "me", name |-> "", version |-> "1", tables |-> [i \in 1..3 |-> Tb(order[i])]]
C == Canon(S)
RefBag(s) == { <<s.tables[i].name, s.tables[i].columns[j].name, s.tables[i].columns[j].ref>> : i \in 1..3, j \in 2..3 }

\* the canonical form keeps every reference
Kept == RefBag(C) = RefBag(S)
\* a workbook keeps all of them (a missing relationship is many-to-one)
ThroughXlsx == LET many(r) == IF r = <<>> THEN r ELSE <<[r[1] EXCEPT !.relationship = IF @ = "" THEN "n:1" ELSE @]>>
               IN  RefBag(XlsxRoundTrip(C)) = { <<x[1], x[2], many(x[3])>> : x \in RefBag(C) }
\* databases do not know them: no DDL changes with a reference, no diff sees one
Bare == [C EXCEPT !.tables = [i \in 1..3 |-> [@[i] EXCEPT !.columns = [j \in 1..3 |-> [@[j] EXCEPT !.ref = <<>>]]]]]
NotInDatabase == /\ MySqlScript(C, "_uq") = MySqlScript(Bare, "_uq")
                 /\ LqDb(C, "_uq") = LqDb(Bare, "_uq")
                 /\ DiffLiquibaseFails(C, Bare, [author |-> "", groups |-> "", suffix |-> "_uq", comments |-> TRUE], <<>>) = {}
                 /\ DiffFlywayFails(Bare, C, [author |-> "", groups |-> "", suffix |-> "_uq", comments |-> TRUE], <<>>) = {}
\* a message relates to selected tables only, once for every reference
Messages == \A g \in {"", "x", "x,y"} :
    LET o == [groups |-> g, prefix |-> "", removePrefix |-> "", package |-> "", goPackage |-> "", tagStart |-> "", tagDecr |-> FALSE]
        sel == Selected(C, g)
    IN  \A t \in Range(sel.tables) :
            Len(PbFields(C, t, o)) = 3 + Len(SelectSeq(t.columns, LAMBDA c : c.ref # <<>> /\ HasName(sel.tables, c.ref[1].table)))

Emit == PrintT("CASE " \o ToJson([refs |-> refs, schema |-> S]))
=============================================================================
