------------------------------ MODULE MC_Names ------------------------------
(***************************************************************************)
(* Every short identifier over lower case letters, capitals, digits and    *)
(* underscores, grown one character at a time; and every short list of     *)
(* prefixes taken off.  The naming rules are checked against each other,   *)
(* and every identifier is emitted as the name of a column and of a table. *)
(***************************************************************************)
EXTENDS Octopus, Json

CONSTANTS Alphabet, MaxLen

VARIABLE n
Init == n \in { c \in Alphabet : IsLow(c) \/ IsCap(c) }
Next == Len(n) < MaxLen /\ \E c \in Alphabet : n' = n \o c

IsWordy(c) == IsLow(c) \/ IsCap(c) \/ IsNum(c)
\* a name in the style of its language
CamelShape == \A f \in {UpperCamel(n), LowerCamel(n)} : f # "" /\ \A i \in 1..Len(f) : IsWordy(Ch(f, i))
Starts == IsCap(Ch(UpperCamel(n), 1)) /\ IsLow(Ch(LowerCamel(n), 1))
SnakeShape == \A i \in 1..Len(Snake(n)) : ~IsCap(Ch(Snake(n), i))
\* applying a rule twice is applying it once (but for the one exception, ID)
CamelIdempotent == /\ UpperCamel(n) # "ID" => UpperCamel(UpperCamel(n)) = UpperCamel(n)
                   /\ LowerCamel(LowerCamel(n)) = LowerCamel(n)
SnakeIdempotent == Snake(Snake(n)) = Snake(n)
\* nothing but separators and letter case is lost
Letters(s) == Lower(FoldLeft(LAMBDA acc, i : acc \o (IF IsWordy(Ch(s, i)) THEN Ch(s, i) ELSE ""), "", Idx(s)))
NothingLost == \A f \in {UpperCamel(n), LowerCamel(n), Snake(n), PySnake(n)} : Letters(f) = Letters(n)
\* the mapping to the column name is left out exactly where the language's own convention finds the column
KtConvention == KtFieldMapped(n) = (Snake(KtField(n)) # n)
PyConvention == ~PyFieldMapped(n) => PyField(n) = n
GoConvention == ~GoFieldMapped(n) => Snake(GoField(n)) = n \/ HasSuffix(UpperCamel(n), "Id")
\* the initial of an identifier does not change which model it names
ModelRule == UpperCamel(n) = UpperCh(Ch(LowerCamel(n), 1)) \o SubSeq(LowerCamel(n), 2, Len(LowerCamel(n)))
\* prefixes come off from the left, one after another
PrefixRule == /\ StripPrefixes("tb_" \o n, <<"tb_">>) = n
              /\ StripPrefixes("x_tb_" \o n, <<"x_", "tb_">>) = n
              /\ (~HasPrefix(n, "x_") => StripPrefixes("tb_" \o n, <<"x_", "tb_">>) = n)
              /\ StripPrefixes(n, <<"">>) = n

Emit == PrintT("CASE " \o ToJson(n))
=============================================================================
