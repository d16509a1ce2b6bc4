------------------------------ MODULE MC_Change -----------------------------
(***************************************************************************)
(* Two versions of one column, exhaustively: every pair of definitions out *)
(* of all types, with sizes, literals, functions, members, comments and    *)
(* flags, under the same name.                                             *)
(***************************************************************************)
EXTENDS OctPlan

CONSTANT Deep

T(t) == [NoCol EXCEPT !.name = "ada", !.type = t]
Sized(t, n, sc) == [T(t) EXCEPT !.size = n, !.scale = sc]
Dflt(t, d) == [T(t) EXCEPT !.default = d]
Bare == { IF t \in {"enum", "set"} THEN [T(t) EXCEPT !.values = <<"a", "b">>] ELSE IF t \in {"varchar", "varbinary"} THEN Sized(t, 20, 0) ELSE T(t) : t \in ColTypes }
Variants ==
    { Sized("varchar", 255, 0), Sized("char", 20, 0), Sized("int32", 11, 0), Sized("decimal", 20, 0), Sized("decimal", 20, 4), Sized("decimal", 20, 3),
      Sized("double", 10, 2), Sized("bit", 8, 0), Sized("bit", 1, 0), Sized("int8", 1, 0) }
    \cup { Dflt("int32", d) : d \in {"0", "1"} } \cup { Dflt("boolean", d) : d \in {"0", "true", "false"} }
    \cup { [Sized("varchar", 20, 0) EXCEPT !.default = d] : d \in {"a", "0", "it's", "fn::UUID"} }
    \cup { Dflt("decimal", "0.5"), Dflt("double", "0"), Dflt("date", "2020-01-31"), Dflt("datetime", "2020-01-31 10:20:30"),
            Dflt("datetime", "fn::CURRENT_TIMESTAMP"), Dflt("datetime", "fn::NOW"), Dflt("bit", "1"), Dflt("time", "10:20:30"),
            [T("enum") EXCEPT !.values = <<"b", "a">>], [T("enum") EXCEPT !.values = <<"a">>], [T("enum") EXCEPT !.values = <<"a", "b">>, !.default = "a"],
            [T("set") EXCEPT !.values = <<"a", "b", "c">>],
            [T("int32") EXCEPT !.autoinc = TRUE], [T("int64") EXCEPT !.autoinc = TRUE, !.notnull = TRUE],
            [T("int32") EXCEPT !.desc = "a text"], [T("datetime") EXCEPT !.desc = "it's", !.default = "fn::CURRENT_TIMESTAMP"],
            [T("datetime") EXCEPT !.onupdate = "fn::CURRENT_TIMESTAMP"] }
Flagged(S) == S \cup { [c EXCEPT !.notnull = TRUE] : c \in S }
Some == {"int32", "int64", "varchar", "boolean", "datetime", "date", "decimal", "double", "enum", "bit", "text16", "blob16", "json"}
Columns == IF Deep THEN Flagged(Bare) \cup Flagged(Variants) ELSE { c \in Bare : TRUE } \cup Flagged({ c \in Bare \cup Variants : c.type \in Some })

\* liquibase cannot take auto-increment away
Init == old \in { <<c>> : c \in Columns } /\ new = <<>>
Next == new = <<>> /\ UNCHANGED old /\ \E c \in Columns : (old[1].autoinc => c.autoinc) /\ new' = <<c>>
=============================================================================
