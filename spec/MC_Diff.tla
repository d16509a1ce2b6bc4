------------------------------- MODULE MC_Diff ------------------------------
(***************************************************************************)
(* Two versions of a table, exhaustively: every sequence of up to NOld     *)
(* columns over NDefs definitions against every sequence of up to NNew     *)
(* columns, kept, renamed, redefined, moved, added or dropped in every     *)
(* combination.                                                            *)
(***************************************************************************)
EXTENDS OctPlan

CONSTANTS NDefs, NOld, NNew

Defs == << NoCol,
           [NoCol EXCEPT !.pk = TRUE, !.notnull = TRUE],
           [NoCol EXCEPT !.unique = TRUE],
           [NoCol EXCEPT !.type = "varchar", !.size = 10, !.default = "x", !.notnull = TRUE, !.desc = "text"],
           [NoCol EXCEPT !.pk = TRUE, !.unique = TRUE],
           [NoCol EXCEPT !.type = "decimal", !.size = 8, !.scale = 2] >>
OldNames == <<"ada", "bob", "cyd", "dan">>
NewNames == <<"xan", "yul", "zoe">>

Columns(names, defs) == [i \in 1..Len(names) |-> [Defs[defs[i]] EXCEPT !.name = names[i]]]
Olds == UNION { { Columns(SubSeq(OldNames, 1, n), d) : d \in [1..n -> 1..NDefs] } : n \in 1..NOld }
\* new names appear in their alphabetical order: which of them is which does not matter
InTurn(ns) == LET fresh == SelectSeq(ns, LAMBDA x : x \in Range(NewNames))
              IN  fresh = SubSeq(NewNames, 1, Len(fresh))
NameSeqs(m) == UNION { { ns \in [1..n -> Range(SubSeq(OldNames, 1, m)) \cup Range(SubSeq(NewNames, 1, n))] : NoDup(ns) /\ InTurn(ns) } : n \in 1..NNew }

Init == old \in Olds /\ new = <<>>
Next == /\ new = <<>> /\ UNCHANGED old
        /\ \E ns \in NameSeqs(Len(old)) : \E d \in [1..Len(ns) -> 1..NDefs] : new' = Columns(ns, d)
=============================================================================
