------------------------------- MODULE MC_Attr ------------------------------
(***************************************************************************)
(* Every kind of column, exhaustively: all types x sizes x scales x keys x *)
(* defaults x ON UPDATE x nullability.  The definitions of the system are  *)
(* checked against each other on every one of them, and every column is    *)
(* emitted as a case for the real tool.                                    *)
(***************************************************************************)
EXTENDS Octopus, Json

CONSTANT Deep          \* TRUE: more sizes and literals

VARIABLES ty, col
vars == <<ty, col>>

Sizes(t) ==
    CASE t = "varchar" -> {1, 20, 255, 65535} \cup (IF Deep THEN {2, 254, 256, 16383, 16384, 32767, 32768} ELSE {})
      [] t \in {"char", "binary", "varbinary"} -> {0, 1, 255} \cup (IF t = "varbinary" THEN {20} \ {0} ELSE {}) 
      [] t = "bit" -> {0, 1, 2, 64}
      [] t \in IntTypes -> {0, 1, 11} \cup (IF Deep THEN {2, 20} ELSE {})
      [] t = "decimal" -> {0, 5, 38}
      [] t \in {"double", "float"} -> {0, 10}
      [] OTHER -> {0}
Scales(t, n) == IF t \in RealTypes /\ n > 0 THEN (IF t = "decimal" THEN {0, 3} ELSE {1, 3})
                ELSE IF t = "decimal" THEN {0, 4} ELSE {0}
Members(t) == IF t \in {"enum", "set"} THEN {<<"a">>, <<"x", "y z">>} \cup (IF Deep THEN {<<"1", "2", "3">>, <<"it's", "b">>} ELSE {}) ELSE {<<>>}
Lits(t, vs) ==
    CASE t \in StrTypes -> {"abc", "0", "it's"} \cup (IF Deep THEN {"true", "null", "1.0", "2020-01-01", "\"q\"", "a\\b"} ELSE {})
      [] t \in IntTypes -> {"0", "-1"} \cup (IF Deep THEN {"127"} ELSE {})
      [] t \in RealTypes -> {"0", "-1.5"} \cup (IF Deep THEN {"10.25", "100"} ELSE {})
      [] t = "boolean" -> {"true", "0", "FALSE"} \cup (IF Deep THEN {"1", "false", "True"} ELSE {})
      [] t = "date" -> {"2020-01-31"}
      [] t = "datetime" -> {"2020-01-31 10:20:30"}
      [] t = "time" -> {"10:20:30"}
      [] t = "year" -> {"2020"}
      [] t = "bit" -> {"1", "0"}
      [] t \in {"enum", "set"} -> {vs[1]}
      [] OTHER -> {}
Fns(t) ==
    CASE t = "datetime" -> {"fn::CURRENT_TIMESTAMP", "fn::NOW"}
      [] t = "date" -> {"fn::CURRENT_DATE"}
      [] t = "varchar" -> {"fn::UUID"}
      [] OTHER -> {}
Keyable(t) == t \in IntTypes \cup StrTypes \cup {"date", "datetime", "decimal", "boolean", "time", "year"}
\* <<pk, unique, autoinc>>
Keys(t) == {<<FALSE, FALSE, FALSE>>}
           \cup (IF Keyable(t) THEN {<<TRUE, FALSE, FALSE>>, <<FALSE, TRUE, FALSE>>, <<TRUE, TRUE, FALSE>>} ELSE {})
           \cup (IF t \in IntTypes THEN {<<TRUE, FALSE, TRUE>>, <<FALSE, TRUE, TRUE>>} ELSE {})

Init == ty \in ColTypes /\ col = <<>>
Pick == /\ col = <<>>
        /\ \E n \in Sizes(ty) : \E sc \in Scales(ty, n) : \E vs \in Members(ty) : \E k \in Keys(ty) : \E nn \in BOOLEAN :
           \E d \in {""} \cup (IF k[3] THEN {} ELSE Lits(ty, vs) \cup Fns(ty)) :
           \E u \in {""} \cup (IF ty = "datetime" /\ ~k[1] THEN {"fn::CURRENT_TIMESTAMP"} ELSE {}) :
           \E ds \in {""} \cup (IF d = "" /\ nn /\ ~k[1] THEN {"a, 'b' \"c\"\\d"} ELSE {}) :
              col' = <<[name |-> "c", type |-> ty, desc |-> ds, size |-> n, scale |-> sc, notnull |-> nn, pk |-> k[1], unique |-> k[2],
                        autoinc |-> k[3], default |-> d, onupdate |-> u, values |-> vs, ref |-> <<>>]>>
        /\ UNCHANGED ty
Next == Pick

C == col[1]
Tab(c) == [name |-> "t", desc |-> "", group |-> "", className |-> "", indices |-> <<>>, columns |-> <<c>>]
Sch(c) == [author |-> "", name |-> "", version |-> "", tables |-> <<Tab(c)>>]
NoOpts == [author |-> "", version |-> "", groups |-> "", excludes |-> <<>>]

\* ---- the definitions agree with each other
CanonIdempotent == col # <<>> => CanonColumn(C) = C /\ CanonColumn(CanonColumn([C EXCEPT !.type = "TimeStamp"])) = CanonColumn([C EXCEPT !.type = "TimeStamp"])
Valid == col # <<>> => WellFormedColumn(C)
\* the statement that creates a table is accepted, and reads back as the schema that is said to survive
MySqlInverse == col # <<>> /\ ty \notin {"geometry", "point"} =>
    LET script == MySqlScript(Sch(C), "_uq")
    IN  /\ Run(EmptyDb, script).bad = {}
        /\ DbDiff(MySqlDb(Sch(C), "_uq"), Run(EmptyDb, script).db, MySqlOpt) = {}
        /\ ImportMySql(script, NoOpts) = MySqlRoundTrip(Sch(C), "", NoOpts)
\* nothing more is lost the second time, and the database of what comes back is the same one
MySqlStable == col # <<>> /\ ty \notin {"geometry", "point"} =>
    LET back == MySqlRoundTrip(Sch(C), "", NoOpts)
    IN  /\ MySqlRoundTrip(back, "", NoOpts) = back
        /\ C.notnull => { b \in DbDiff(MySqlDb(Sch(C), ""), MySqlDb(back, ""), MySqlOpt) :
                            ~(b[1] = "db-column-type" /\ ty = "bit") /\ ~(ty = "int8" /\ C.size = 1)   \* tinyint(1) comes back a boolean
                            /\ ~(b[1] = "db-column-default" /\ IsFn(C.default)) } = {}
Workbook(s) == << [name |-> "Meta", rows |-> << <<"author", s.author>>, <<"name", s.name>>, <<"version", s.version>> >>],
                  [name |-> "Common", rows |-> << Header(FALSE) >> \o GroupRows(s, "", FALSE)] >>
XlsxInverse == col # <<>> /\ ty \notin {"enum", "set"} /\ ~HasText(C.default, ",") =>
    /\ Canon(FromXlsx(Workbook(Sch(C)))) = XlsxRoundTrip(Sch(C))
    /\ ExportXlsxFails(Sch(C), [nullcol |-> FALSE], Workbook(Sch(C))) = {}
LqAccepted == col # <<>> =>
    LET c == [op |-> "createTable", table |-> "t", cols |-> <<LqCol(C)>>, pk |-> <<>>, uqs |-> <<>>, idx |-> <<>>, comment |-> ""]
    IN  Rejected(EmptyDb, c) = {} /\ (C.default # "" => LqValue(C).k # "none")
CodeTotal == col # <<>> =>
    /\ GoType(C) # "" /\ KtType(C) # "" /\ GqlType(C) # ""
    /\ ty \in PbTypes => PbType(C) \in PbScalars \cup {"google.protobuf.Timestamp"}
    /\ (~C.notnull => KtDefault(C) = "")

Emit == col # <<>> => PrintT("CASE " \o ToJson(C))
=============================================================================
