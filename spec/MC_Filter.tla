------------------------------ MODULE MC_Filter -----------------------------
(***************************************************************************)
(* The group filter, exhaustively: every short list of group names, among  *)
(* them unknown ones, repetitions, prefixes of each other, names that      *)
(* differ in letter case, and the empty name.                              *)
(***************************************************************************)
EXTENDS Octopus, Json

CONSTANTS Words, MaxItems

VARIABLE list
vars == <<list>>
Init == list = <<>>
Next == Len(list) < MaxItems /\ \E g \in Words : list' = Append(list, g)

GroupNames == <<"", "core", "cor", "corex", "Core", "shop">>
NoT == [name |-> "", desc |-> "", group |-> "", className |-> "", indices |-> <<>>, columns |-> <<>>]
\* two tables in every group
S == [author |-> "", name |-> "", version |-> "",
      tables |-> [i \in 1..(2 * Len(GroupNames)) |-> [NoT EXCEPT !.name = "t" \o ToString(i), !.group = GroupNames[((i - 1) % Len(GroupNames)) + 1]]]]
Opt == JoinStr(list, ",")
Chosen(l) == NameSet(Selected(S, l).tables)

\* a list selects what its members select, whatever their order and repetition
UnionOf == list # <<>> /\ Opt # "" =>
    Chosen(Opt) = { S.tables[i].name : i \in { j \in 1..Len(S.tables) : S.tables[j].group \in Range(list) } }
Monotone == \A g \in Words : list # <<>> /\ Opt # "" => Chosen(Opt) \subseteq Chosen(Opt \o "," \o g)
Unordered == list # <<>> => Chosen(Opt) = Chosen(JoinStr(Reverse(list), ","))
Everything == Opt = "" => Selected(S, Opt) = Canon(S)
\* selecting twice is selecting once; what is left keeps its order
Idempotent == Selected(Selected(S, Opt), Opt) = Selected(S, Opt)
KeepsOrder == LET a == Names(Selected(S, Opt).tables)
                  b == Names(Canon(S).tables)
              IN  \A i, j \in 1..Len(a) : i < j => (CHOOSE k \in 1..Len(b) : b[k] = a[i]) < (CHOOSE k \in 1..Len(b) : b[k] = a[j])
\* a diff sees the same part of both versions
Split == Opt # "" => { x.name : x \in Range(Unselected(S, Opt).tables) } = NameSet(S.tables) \ Chosen(Opt)

Emit == PrintT("CASE " \o ToJson(list))
=============================================================================
