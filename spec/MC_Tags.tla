------------------------------- MODULE MC_Tags ------------------------------
(***************************************************************************)
(* Field numbers of protobuf messages, exhaustively: every arrangement of  *)
(* up to MaxCols columns with and without references, every requested      *)
(* first tag, up and down.  Numbers never meet, columns keep theirs        *)
(* whatever the relations, and relations stay together.                    *)
(***************************************************************************)
EXTENDS Octopus, Json

CONSTANTS MaxCols, Starts

VARIABLES cols, opt
vars == <<cols, opt>>

\* what a column refers to: nothing, a table (many to one), a table (one to many), a table left out by the filter
Kinds == {"none", "one", "two", "many", "out"}
NotYet == [tagStart |-> "?", tagDecr |-> FALSE]
Init == cols = <<>> /\ opt = NotYet
Grow == /\ opt = NotYet /\ Len(cols) < MaxCols
        /\ \E k \in Kinds : (k # "none" => \A i \in 1..Len(cols) : cols[i] # k) /\ cols' = Append(cols, k)
        /\ UNCHANGED opt
Choose == opt = NotYet /\ cols # <<>> /\ UNCHANGED cols /\ opt' \in [tagStart : Starts, tagDecr : BOOLEAN]
Next == Grow \/ Choose
Ready == opt # NotYet

NoC == [name |-> "", type |-> "int64", desc |-> "", size |-> 0, scale |-> 0, notnull |-> TRUE, pk |-> FALSE, unique |-> FALSE,
        autoinc |-> FALSE, default |-> "", onupdate |-> "", values |-> <<>>, ref |-> <<>>]
RefTo(k) == <<[table |-> k, column |-> "id", relationship |-> IF k = "many" THEN "1:n" ELSE "n:1"]>>
Tb(n, g, cs) == [name |-> n, desc |-> "", group |-> g, className |-> "", indices |-> <<>>, columns |-> cs]
Own == Tb("own", "in", [i \in 1..Len(cols) |-> [NoC EXCEPT !.name = "c" \o ToString(i), !.ref = IF cols[i] = "none" THEN <<>> ELSE RefTo(cols[i])]])
S == [author |-> "", name |-> "", version |-> "",
      tables |-> <<Own>> \o [i \in 1..4 |-> Tb(<<"many", "one", "out", "two">>[i], IF i = 3 THEN "out" ELSE "in", <<[NoC EXCEPT !.name = "id"]>>)]]
O(o) == [groups |-> "in", prefix |-> "", removePrefix |-> "", package |-> "", goPackage |-> ""] @@ o
F(o) == PbFields(S, Own, O(o))
Rels == SelectSeq([i \in 1..Len(cols) |-> i], LAMBDA i : cols[i] \notin {"none", "out"})
Numbered == Ready =>
    LET fs == F(opt)
        tags == [i \in 1..Len(fs) |-> fs[i].tag]
        n == Len(cols)
        m == Len(Rels)
    IN  \* never meet; columns come first
        /\ NoDup(tags) /\ \A i \in 1..Len(tags) : tags[i] >= 1
        /\ \A i \in 1..n : tags[i] = i
        /\ Len(tags) = n + m /\ \A i \in (n + 1)..Len(tags) : tags[i] > n
        \* relations stay together, and start at the requested number where there is room
        /\ \A i \in (n + 1)..(Len(tags) - 1) : tags[i + 1] = tags[i] + (IF opt.tagDecr THEN -1 ELSE 1)
        /\ m > 0 /\ TagStart(O(opt)) - m >= n => tags[n + 1] = TagStart(O(opt))
        \* numbering does not change what the fields are
        /\ Names(fs) = Names(F([tagStart |-> "", tagDecr |-> FALSE]))

Emit == Ready => PrintT("CASE " \o ToJson([cols |-> cols, opt |-> opt]))
=============================================================================
