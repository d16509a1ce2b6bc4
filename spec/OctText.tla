------------------------------ MODULE OctText ------------------------------
(***************************************************************************)
(* Character strings.  TLC gives strings the sequence operators Len,       *)
(* SubSeq and \o, which is all this module builds on.  The naming rules    *)
(* (camel case, snake case, prefix removal) are written as small automata  *)
(* that read a name from left to right.                                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, Functions

LOWERS == "abcdefghijklmnopqrstuvwxyz"
UPPERS == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIGITS == "0123456789"
\* printable ASCII in code order (space .. ~); used to order names
ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

Ch(s, i) == SubSeq(s, i, i)
CharsOf(s) == { Ch(s, i) : i \in 1..Len(s) }
Idx(s) == [i \in 1..Len(s) |-> i]

LowerSet == CharsOf(LOWERS)
UpperSet == CharsOf(UPPERS)
DigitSet == CharsOf(DIGITS)
IsLow(c) == c \in LowerSet
IsCap(c) == c \in UpperSet
IsNum(c) == c \in DigitSet

ToLowerMap == [c \in UpperSet |-> LET k == CHOOSE i \in 1..26 : Ch(UPPERS, i) = c IN Ch(LOWERS, k)]
ToUpperMap == [c \in LowerSet |-> LET k == CHOOSE i \in 1..26 : Ch(LOWERS, i) = c IN Ch(UPPERS, k)]
LowerCh(c) == IF IsCap(c) THEN ToLowerMap[c] ELSE c
UpperCh(c) == IF IsLow(c) THEN ToUpperMap[c] ELSE c

Lower(s) == FoldLeft(LAMBDA acc, i : acc \o LowerCh(Ch(s, i)), "", Idx(s))

OrdMap == [c \in CharsOf(ASCII) |-> CHOOSE i \in 1..Len(ASCII) : Ch(ASCII, i) = c]
Ord(c) == IF c \in DOMAIN OrdMap THEN OrdMap[c] ELSE 1000

\* strict byte-wise order of strings
RECURSIVE StrLessFrom(_, _, _)
StrLessFrom(a, b, i) ==
    IF i > Len(a) THEN i <= Len(b)
    ELSE IF i > Len(b) THEN FALSE
    ELSE IF Ch(a, i) = Ch(b, i) THEN StrLessFrom(a, b, i + 1)
    ELSE Ord(Ch(a, i)) < Ord(Ch(b, i))
StrLess(a, b) == StrLessFrom(a, b, 1)

HasPrefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
DropPrefix(s, p) == SubSeq(s, Len(p) + 1, Len(s))
HasSuffix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
TextAt(s, p, i) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
HasText(s, p) == \E i \in 1..(Len(s) + 1) : TextAt(s, p, i)

\* strings joined by a separator
JoinStr(seq, sep) ==
    IF seq = <<>> THEN ""
    ELSE FoldLeft(LAMBDA acc, i : acc \o sep \o seq[i], seq[1], [i \in 1..(Len(seq) - 1) |-> i + 1])

\* split at a one-character separator: "a,b" -> <<"a","b">>, "" -> <<"">>
SplitStr(s, sep) ==
    LET step(acc, i) ==
            IF Ch(s, i) = sep THEN [done |-> Append(acc.done, acc.cur), cur |-> ""]
            ELSE [acc EXCEPT !.cur = @ \o Ch(s, i)]
        r == FoldLeft(step, [done |-> <<>>, cur |-> ""], Idx(s))
    IN  Append(r.done, r.cur)

\* decimal numerals
IsNumeral(s) == s # "" /\ \A i \in 1..Len(s) : IsNum(Ch(s, i))
IsIntLit(s) == IF HasPrefix(s, "-") THEN IsNumeral(DropPrefix(s, "-")) ELSE IsNumeral(s)

SetToSortedSeq(S) == SetToSortSeq(S, StrLess)

(***************************************************************************)
(* Case conversion.                                                        *)
(***************************************************************************)
IsSep(c) == c \in {"_", " ", "-", "."}

\* one pass; `cap` says whether the next letter starts a new word
CamelStep(s, acc, i) ==
    LET c  == Ch(s, i)
        v  == IF acc.cap THEN UpperCh(c) ELSE IF i = 1 THEN LowerCh(c) ELSE c
    IN  IF IsCap(c) \/ IsLow(c) THEN [out |-> acc.out \o v, cap |-> FALSE]
        ELSE IF IsNum(c) THEN [out |-> acc.out \o c, cap |-> TRUE]
        ELSE [out |-> acc.out, cap |-> IsSep(c)]

CamelFrom(s, cap) == FoldLeft(LAMBDA acc, i : CamelStep(s, acc, i), [out |-> "", cap |-> cap], Idx(s)).out
UpperCamel(s) == CamelFrom(IF s = "ID" THEN "id" ELSE s, TRUE)
LowerCamel(s) == CamelFrom(IF s = "ID" THEN "id" ELSE s, FALSE)

\* snake case: a delimiter wherever letter case, or letter/digit class, changes
SnakeStep(s, acc, i) ==
    LET c    == Ch(s, i)
        next == IF i < Len(s) THEN Ch(s, i + 1) ELSE ""
        prev == IF i > 1 THEN Ch(s, i - 1) ELSE ""
        bnd  == i < Len(s) /\ \/ IsCap(c) /\ (IsLow(next) \/ IsNum(next))
                              \/ IsLow(c) /\ (IsCap(next) \/ IsNum(next))
                              \/ IsNum(c) /\ (IsCap(next) \/ IsLow(next))
        pre  == IF bnd /\ IsCap(c) /\ IsLow(next) /\ IsCap(prev) THEN "_" ELSE ""
        post == IF bnd /\ (IsLow(c) \/ IsNum(c) \/ IsNum(next)) THEN "_" ELSE ""
        mid  == IF IsSep(c) THEN "_" ELSE LowerCh(c)
    IN  acc \o pre \o mid \o post
Snake(s) == FoldLeft(LAMBDA acc, i : SnakeStep(s, acc, i), "", Idx(s))

=============================================================================
