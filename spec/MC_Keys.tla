------------------------------- MODULE MC_Keys ------------------------------
(***************************************************************************)
(* Keys, exhaustively: every way to flag up to MaxCols columns as primary  *)
(* key, unique, not null and auto-increment, with every choice of index.   *)
(* What the backends say about keys is checked for agreement: they all     *)
(* name the same primary key, the same unique columns and the same         *)
(* nullability, and what MySQL is told can be read back.                   *)
(***************************************************************************)
EXTENDS Octopus, Json

CONSTANTS MaxCols, WithIndex

VARIABLES cols, idx
vars == <<cols, idx>>

NoCol == [name |-> "", type |-> "int32", desc |-> "", size |-> 0, scale |-> 0, notnull |-> FALSE, pk |-> FALSE, unique |-> FALSE,
          autoinc |-> FALSE, default |-> "", onupdate |-> "", values |-> <<>>, ref |-> <<>>]
ColName == <<"row_no", "group_code", "made_by">>
Types == <<"int64", "int32", "varchar">>
Flags == [pk: BOOLEAN, unique: BOOLEAN, notnull: BOOLEAN, autoinc: BOOLEAN]
\* only integers count up, and only one of them does
Counts(i, f) == f.autoinc => Types[i] # "varchar"
Columns(n) == { fs \in [1..n -> Flags] : (\A i \in 1..n : Counts(i, fs[i])) /\ Cardinality({ i \in 1..n : fs[i].autoinc }) <= 1 }
Col(i, f) == [NoCol EXCEPT !.name = ColName[i], !.type = Types[i], !.size = IF Types[i] = "varchar" THEN 20 ELSE 0,
                           !.pk = f.pk, !.unique = f.unique, !.notnull = f.notnull, !.autoinc = f.autoinc]
\* an index over any sequence of different columns, none, or two of them
IndexOn(n) == { s \in UNION { [1..k -> 1..n] : k \in 1..n } : NoDup(s) }
Ix(name, s) == [name |-> name, columns |-> [i \in 1..Len(s) |-> ColName[s[i]]]]
Indexes(n) == {<<>>} \cup (IF WithIndex THEN { <<Ix("idx_one", s)>> : s \in IndexOn(n) }
                                              \cup { <<Ix("idx_one", s), Ix("idx_two", r)>> : s \in {<<1>>}, r \in IndexOn(n) } ELSE {})

NotYet == <<[name |-> "?", columns |-> <<>>]>>
Init == cols \in UNION { { [i \in 1..n |-> Col(i, fs[i])] : fs \in Columns(n) } : n \in 1..MaxCols } /\ idx = NotYet
Next == idx = NotYet /\ UNCHANGED cols /\ idx' \in Indexes(Len(cols))
Ready == idx # NotYet

T == [name |-> "tab", desc |-> "", group |-> "", className |-> "", indices |-> idx, columns |-> cols]
S == [author |-> "me", name |-> "", version |-> "1", tables |-> <<T>>]
MyDb == MySqlDb(S, "_uq")["tab"]
LDb == LqDb(S, "_uq")["tab"]

SameKeys == Ready =>
    /\ MyDb.pk = PkNames(T) /\ LDb.pk = PkNames(T)
    /\ MyDb.uqs = LDb.uqs /\ (UqCols(T) = <<>> \/ MyDb.uqs["tab_uq"] = UqNames(T))
    /\ \A i \in 1..Len(cols) : MyDb.cols[i].notnull = LDb.cols[i].notnull /\ MyDb.cols[i].notnull = (cols[i].notnull \/ cols[i].pk)
Script == MySqlScript(S, "_uq")
ReadsBack == Ready =>
    LET back == ImportMySql(Script, [author |-> "", version |-> "", excludes |-> <<>>]).tables[1]
    IN  /\ Names(back.columns) = Names(cols) /\ back.indices = idx
        /\ \A i \in 1..Len(cols) : /\ back.columns[i].pk = cols[i].pk /\ back.columns[i].unique = cols[i].unique
                                   /\ back.columns[i].autoinc = cols[i].autoinc
                                   /\ back.columns[i].notnull = (cols[i].notnull \/ cols[i].pk \/ cols[i].autoinc)
\* a second diff finds nothing to do
DiffOfSame == Ready =>
    /\ DiffLiquibaseFails(S, S, [author |-> "", groups |-> "", suffix |-> "_uq", comments |-> TRUE], <<>>) = {}
    /\ DiffFlywayFails(S, S, [author |-> "", groups |-> "", suffix |-> "_uq", comments |-> TRUE], <<>>) = {}
    /\ DiffMdFails(S, S, [author |-> "", groups |-> "", suffix |-> "_uq", comments |-> TRUE], [from |-> "1", to |-> "1", sections |-> <<>>]) = {}

Emit == Ready => PrintT("CASE " \o ToJson([columns |-> cols, indices |-> idx]))
=============================================================================
