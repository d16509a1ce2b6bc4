------------------------------ MODULE MC_Valid ------------------------------
(***************************************************************************)
(* Which columns are valid: every type name the documentation knows, in    *)
(* four letter cases, and names it does not know, with and without a name, *)
(* members and the auto-increment flag.  `ok` is the model's verdict.      *)
(***************************************************************************)
EXTENDS Octopus, Json

VARIABLES word, col
vars == <<word, col>>

Upper(s) == FoldLeft(LAMBDA acc, i : acc \o UpperCh(Ch(s, i)), "", Idx(s))
Capital(s) == IF s = "" THEN s ELSE UpperCh(Ch(s, 1)) \o SubSeq(s, 2, Len(s))
Zigzag(s) == FoldLeft(LAMBDA acc, i : acc \o (IF i % 2 = 0 THEN UpperCh(Ch(s, i)) ELSE Ch(s, i)), "", Idx(s))
Unknown == {"", "foo", "bool", "bit1", "int128", "varchar2", "varchar(20)", "int 32", "datetime2", "enumset", "blob64", "text64", "int8 ", " int8", "character",
            "dec", "clob", "uuid", "int4", "sets", "stringg", "tiny", "blob0"}
Known == ColTypes \cup DOMAIN Synonym
Words == UNION { {w, Upper(w), Capital(w), Zigzag(w)} : w \in Known } \cup Unknown
Members == { 0, 1, 2, 63, 64, 65, 66 }

Init == word \in Words /\ col = <<>>
Next == /\ col = <<>> /\ UNCHANGED word
        /\ \E n \in {"", "code"} : \E k \in (IF CanonType(word) \in {"enum", "set"} THEN Members ELSE {0, 2}) : \E ai \in BOOLEAN :
              /\ (n = "" => k = 0 \/ CanonType(word) = "enum") /\ (ai => n # "")
              /\ col' = <<[name |-> n, type |-> word, desc |-> "", size |-> 0, scale |-> 0, notnull |-> FALSE, pk |-> FALSE, unique |-> FALSE,
                           autoinc |-> ai, default |-> "", onupdate |-> "", values |-> [i \in 1..k |-> "m" \o ToString(i)], ref |-> <<>>]>>
C == col[1]

CanonIsCanonical == CanonType(word) \in ColTypes => CanonType(CanonType(word)) = CanonType(word)
SynonymsAreTypes == \A w \in DOMAIN Synonym : Synonym[w] \in ColTypes /\ w \notin ColTypes /\ Lower(w) = w
LetterCaseIsNothing == CanonType(Upper(word)) = CanonType(word)
KnownExactly == (CanonType(word) \in ColTypes) = (\E w \in Known : Lower(word) = w)
ValidityIsCanonical == col # <<>> => WellFormedColumn(C) = WellFormedColumn(CanonColumn(C))
Emit == col # <<>> => PrintT("CASE " \o ToJson([col |-> C, ok |-> WellFormedColumn(C)]))
=============================================================================
