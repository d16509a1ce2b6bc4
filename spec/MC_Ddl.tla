------------------------------- MODULE MC_Ddl -------------------------------
(***************************************************************************)
(* The spellings of MySQL column and key declarations, exhaustively: a     *)
(* grammar that writes the text of a declaration next to its meaning.      *)
(* The meaning is shown to be a well-formed schema that an export and an   *)
(* import bring back unchanged; the text is a case for the real tool.      *)
(***************************************************************************)
EXTENDS Octopus, OctQuote, Json

CONSTANT Deep

VARIABLES part, low, out        \* what is declared; keywords in lower case; [text, meaning] once chosen
vars == <<part, low, out>>

K(s) == IF low THEN Lower(s) ELSE s
TyForm(text, base, args, kind) == [text |-> text, base |-> base, args |-> args, kind |-> kind]
IntWords == {<<"TINYINT", "tinyint">>, <<"SMALLINT", "smallint">>, <<"MEDIUMINT", "mediumint">>, <<"INT", "int">>, <<"INTEGER", "int">>, <<"BIGINT", "bigint">>}
Ints == UNION { UNION { UNION { { TyForm(w[1] \o l[1] \o u, w[2] \o (IF u = "" THEN "" ELSE " unsigned"), l[2], "int") : u \in {"", " UNSIGNED", " UNSIGNED ZEROFILL"} }
                        : l \in {<<"", <<>> >>, <<"(1)", <<"1">> >>, <<"(11)", <<"11">> >>} } : w \in IntWords } : x \in {1} }
        \cup { TyForm(w[1], w[2], <<>>, "int") : w \in {<<"INT1", "tinyint">>, <<"INT2", "smallint">>, <<"INT3", "mediumint">>, <<"INT4", "int">>, <<"INT8", "bigint">>} }
Strs == { TyForm(w \o "(20)" \o p, "varchar", <<"20">>, "str") : w \in {"VARCHAR", "CHARACTER VARYING", "NATIONAL VARCHAR", "NVARCHAR"}, p \in {""} }
        \cup { TyForm("VARCHAR(" \o n \o ")" \o p, "varchar", <<n>>, "str") : n \in {"1", "255", "16383"}, p \in {"", " CHARACTER SET utf8", " COLLATE utf8_bin", " CHARSET utf8mb4 COLLATE utf8mb4_general_ci", " BINARY"} }
        \cup { TyForm(w \o l[1], "char", l[2], "str") : w \in {"CHAR", "CHARACTER"}, l \in {<<"", <<>> >>, <<"(1)", <<"1">> >>, <<"( 36 )", <<"36">> >>} }
        \cup { TyForm(w, "char", <<"5">>, "str") : w \in {"CHAR(5) BINARY", "CHAR(5) CHARACTER SET ascii", "CHAR(5) CHARACTER SET utf8 COLLATE utf8_bin", "NCHAR(5)", "NATIONAL CHAR(5)", "NATIONAL CHARACTER(5)"} }
        \cup { TyForm(w, "varchar", <<"5">>, "str") : w \in {"CHAR VARYING(5)", "NCHAR VARYING(5)", "NCHAR VARCHAR(5)", "NATIONAL CHARACTER VARYING(5)"} }
        \* the binary character set makes a string type a type of bytes
        \cup { TyForm(w[1] \o "(5) " \o p, w[2], <<"5">>, "str") : w \in {<<"CHAR", "binary">>, <<"VARCHAR", "varbinary">>}, p \in {"CHARACTER SET binary", "CHARSET binary"} }
Reals == { TyForm(w \o l[1] \o u, "decimal" \o (IF u = "" THEN "" ELSE " unsigned"), l[2], "dec") : w \in {"DECIMAL", "NUMERIC", "DEC"}, u \in {"", " UNSIGNED"},
           l \in {<<"", <<>> >>, <<"(10)", <<"10">> >>, <<"(10,3)", <<"10", "3">> >>, <<"(38, 10)", <<"38", "10">> >>, <<"(5,0)", <<"5", "0">> >>} }
         \cup { TyForm(w[1] \o l[1], w[2], l[2], "dec") : w \in {<<"FLOAT", "float">>, <<"DOUBLE", "double">>, <<"REAL", "double">>, <<"DOUBLE PRECISION", "double">>}, l \in {<<"", <<>> >>, <<"(10,3)", <<"10", "3">> >>} }
         \cup { TyForm(w[1], w[2], w[3], "dec") : w \in {<<"FIXED(10,3)", "decimal", <<"10", "3">> >>, <<"FLOAT(7)", "float", <<>> >>, <<"FLOAT(24)", "float", <<>> >>, <<"FLOAT(25)", "double", <<>> >>, <<"FLOAT(53)", "double", <<>> >>} }
Times == { TyForm(w[1], w[2], <<>>, w[2]) : w \in {<<"DATE", "date">>, <<"TIME", "time">>, <<"DATETIME", "datetime">>, <<"TIMESTAMP", "timestamp">>, <<"YEAR", "year">>, <<"YEAR(4)", "year">>} }
         \cup { TyForm(w[1] \o "(3)", w[2], <<"3">>, w[2] \o "3") : w \in {<<"DATETIME", "datetime">>, <<"TIMESTAMP", "timestamp">>} }
Lobs == { TyForm(w, Lower(w), <<>>, "lob") : w \in {"TINYTEXT", "TEXT", "MEDIUMTEXT", "LONGTEXT", "TINYBLOB", "BLOB", "MEDIUMBLOB", "LONGBLOB", "JSON", "BINARY"} }
        \cup { TyForm(w[1] \o "(16)", w[2], <<"16">>, "lob") : w \in {<<"BINARY", "binary">>, <<"VARBINARY", "varbinary">>} }
        \* a length too large for the type named selects a larger one
        \cup { TyForm(w[1], w[2], <<>>, "lob") : w \in {<<"TEXT(1000)", "text">>, <<"TEXT(65536)", "mediumtext">>, <<"TEXT(16777216)", "longtext">>, <<"BLOB(65535)", "blob">>, <<"BLOB(65536)", "mediumblob">>,
                                                       <<"BLOB(16777215)", "mediumblob">>, <<"BLOB(4294967295)", "longblob">>} }
        \cup { TyForm("TEXT CHARACTER SET utf8", "text", <<>>, "lob"), TyForm("MEDIUMTEXT BINARY", "mediumtext", <<>>, "lob") }
        \cup { TyForm(w, "mediumtext", <<>>, "lob") : w \in {"LONG", "LONG VARCHAR"} } \cup { TyForm("LONG VARBINARY", "mediumblob", <<>>, "lob") }
        \cup { TyForm(w[1] \o " CHARACTER SET binary", w[2], <<>>, "lob") : w \in {<<"TINYTEXT", "tinyblob">>, <<"TEXT", "blob">>, <<"MEDIUMTEXT", "mediumblob">>, <<"LONGTEXT", "longblob">>} }
Bits == { TyForm("BIT" \o l[1], "bit", l[2], "bit") : l \in {<<"", <<>> >>, <<"(1)", <<"1">> >>, <<"(8)", <<"8">> >>, <<"(64)", <<"64">> >>} }
        \cup { TyForm(w, "boolean", <<>>, "bool") : w \in {"BOOL", "BOOLEAN"} }
Members == {<<"a">>, <<"x", "y z">>, <<"it's", "b,c", "(d)">>, <<"1", "2">>, <<"\\", "\"">>}
QuoteAs(q, s) == IF q = "'" THEN QuoteSql(s) ELSE IF q = "\\" THEN "'" \o Escaped(s, {"'", "\\"}, Backslashed) \o "'"
                 ELSE "\"" \o Escaped(s, {"\"", "\\"}, LAMBDA c : IF c = "\"" THEN Doubled(c) ELSE Backslashed(c)) \o "\""
Enums == { TyForm(w \o "(" \o JoinStr([i \in 1..Len(vs) |-> QuoteAs(q, vs[i])], sep) \o ")", Lower(w), vs, "enum") :
             w \in {"ENUM", "SET"}, vs \in Members, q \in {"'", "\\", "\""}, sep \in {",", ", "} }
TypeForms == Ints \cup Strs \cup Reals \cup Times \cup Lobs \cup Bits \cup Enums

Str(v) == [k |-> "str", v |-> v]
NumV(v) == [k |-> "num", v |-> v]
Fn(v) == [k |-> "fn", v |-> v]
Texts == {"abc", "", "0", "NULL", "it's", "a\\b", "\"q\"", "a;b", "-- x"}
Now == { <<f, Fn("CURRENT_TIMESTAMP")>> : f \in {"CURRENT_TIMESTAMP", "CURRENT_TIMESTAMP()", "NOW()", "LOCALTIMESTAMP", "LOCALTIME()"} }
Now3 == { <<f, Fn("CURRENT_TIMESTAMP")>> : f \in {"CURRENT_TIMESTAMP(3)", "NOW(3)"} }
\* <<text, value>>: default values in all their spellings
DefaultForms(ty) ==
    CASE ty.kind = "int" -> { <<v, NumV(v)>> : v \in {"0", "1", "42"} \cup (IF HasText(ty.text, "UNSIGNED") THEN {} ELSE {"-1"}) } \cup { <<"'" \o v \o "'", Str(v)>> : v \in {"0", "7"} }
                            \cup {<<"+5", NumV("5")>>, <<"0x1F", NumV("31")>>, <<"x'0a'", NumV("10")>>}
      [] ty.kind = "str" -> { <<QuoteAs(q, v), Str(v)>> : v \in Texts, q \in {"'", "\\", "\""} }
                            \* hexadecimal and bit literals are strings here, adjacent literals are one
                            \cup {<<"X'4142'", Str("AB")>>, <<"0x6162", Str("ab")>>, <<"b'01000001'", Str("A")>>, <<"'a' 'b'", Str("ab")>>}
      [] ty.kind = "dec" -> { <<v, NumV(v)>> : v \in {"0", "1.5", "0.00", "123.450"} \cup (IF HasText(ty.text, "UNSIGNED") THEN {} ELSE {"-3.75"}) } \cup { <<"'" \o v \o "'", Str(v)>> : v \in {"0", "10.25"} }
      [] ty.kind \in {"datetime", "timestamp"} -> Now \cup {<<"'2020-01-31 10:20:30'", Str("2020-01-31 10:20:30")>>}
      [] ty.kind \in {"datetime3", "timestamp3"} -> Now3
      [] ty.kind = "date" -> {<<"'2020-01-31'", Str("2020-01-31")>>, <<"\"2020-01-31\"", Str("2020-01-31")>>}
      [] ty.kind = "time" -> {<<"'10:20:30'", Str("10:20:30")>>}
      [] ty.kind = "year" -> {<<"2020", NumV("2020")>>}
      [] ty.kind = "bit" -> {<<"1", NumV("1")>>, <<"b'0'", NumV("0")>>, <<"b'1'", NumV("1")>>, <<"0b1", NumV("1")>>} \cup (IF ty.args \in {<<"8">>, <<"64">>} THEN {<<"b'101'", NumV("5")>>, <<"6", NumV("6")>>} ELSE {})
      [] ty.kind = "bool" -> {<<"1", NumV("1")>>, <<"0", NumV("0")>>, <<"TRUE", NumV("1")>>, <<"FALSE", NumV("0")>>}
      [] ty.kind = "enum" -> { <<QuoteSql(ty.args[i]), Str(ty.args[i])>> : i \in 1..Len(ty.args) }
      [] OTHER -> {}
\* literals keep their case
KeepCase(t) == HasText(t, "'") \/ HasText(t, "\"") \/ HasPrefix(t, "0b") \/ HasPrefix(t, "0x")
Spelt(t) == IF KeepCase(t) THEN t ELSE K(t)
Updates(ty) == IF ty.kind \in {"datetime", "timestamp"} THEN {"CURRENT_TIMESTAMP", "CURRENT_TIMESTAMP()", "NOW()"} ELSE IF ty.kind \in {"datetime3", "timestamp3"} THEN {"CURRENT_TIMESTAMP(3)"} ELSE {}
CanKey(ty) == ty.kind \in {"int", "str", "dec", "date", "datetime"}

\* the orders in which n options may be written (all of them, for up to three)
Orders(opts) == IF Len(opts) <= 1 THEN {opts} ELSE IF Len(opts) <= 3 THEN { [i \in 1..Len(opts) |-> opts[p[i]]] : p \in { q \in [1..Len(opts) -> 1..Len(opts)] : NoDup(q) } }
                ELSE {opts, Reverse(opts), Tail(opts) \o <<opts[1]>>}

Decl(ty, nul, d, u, key, ai, cm, opts) ==
    [text |-> JoinStr(<<K(ty.text)>> \o opts, " "), pk |-> key \in {"PRIMARY KEY", "KEY"}, unique |-> key \in {"UNIQUE", "UNIQUE KEY"},
     col |-> [type |-> Ty(ty.base, ty.args), notnull |-> nul = "NOT NULL", autoinc |-> ai, default |-> d, onupdate |-> u, comment |-> cm]]

NoChoice == [text |-> "", pk |-> FALSE, unique |-> FALSE]
Init == part \in { <<ty>> : ty \in TypeForms } \cup {<<>>} /\ low \in BOOLEAN /\ out = NoChoice

\* the literals of an enumeration keep their case
LowOk(ty) == low => ~KeepCase(ty.text)
Choose ==
    /\ out = NoChoice /\ part # <<>> /\ LowOk(part[1]) /\ UNCHANGED <<part, low>>
    /\ \E nul \in {"", "NOT NULL", "NULL"}, d \in {<<"", NoVal>>, <<"NULL", NoVal>>} \cup DefaultForms(part[1]), u \in {""} \cup Updates(part[1]),
          key \in {"", "PRIMARY KEY", "KEY", "UNIQUE", "UNIQUE KEY"}, ai \in BOOLEAN, cm \in {"", "it's; a \"text\""} :
        /\ ~(nul = "NOT NULL" /\ d[1] = "NULL")
        /\ key # "" => CanKey(part[1]) /\ (Deep \/ d[1] = "")
        /\ key \in {"PRIMARY KEY", "KEY"} => nul # "NULL" /\ d[1] # "NULL"
        /\ ai => part[1].kind = "int" /\ key # "" /\ d[1] = "" /\ nul # "NULL"
        /\ cm # "" => Deep \/ (d[1] = "" /\ u = "")
        /\ Deep \/ Cardinality({ k \in {"n", "d", "u", "k", "a", "c"} : CASE k = "n" -> nul # "" [] k = "d" -> d[1] # "" [] k = "u" -> u # "" [] k = "k" -> key # "" [] k = "a" -> ai [] k = "c" -> cm # "" }) <= 3
        /\ LET opts == If(nul # "", K(nul)) \o If(d[1] # "", K("DEFAULT ") \o Spelt(d[1])) \o If(u # "", K("ON UPDATE ") \o K(u)) \o If(ai, K("AUTO_INCREMENT"))
                       \o If(key # "", K(key)) \o If(cm # "", K("COMMENT ") \o QuoteAs(IF low THEN "\"" ELSE "'", cm))
           IN  \E o \in (IF Deep \/ ~low THEN Orders(opts) ELSE {opts}) : out' = Decl(part[1], nul, d[2], IF u = "" THEN NoVal ELSE Fn("CURRENT_TIMESTAMP"), key, ai, cm, o)

\* ---- keys declared after the columns a (int), b (varchar), c (datetime)
KeyCols == {<<"a">>, <<"b">>, <<"a", "b">>, <<"c", "a">>, <<"b", "c", "a">>}
ColSpell(n, i) == IF n = "b" /\ i = 1 THEN "`b`(3)" ELSE IF n = "c" /\ i = 1 THEN K("c DESC") ELSE IF i = 2 THEN n \o K(" ASC") ELSE IF i = 1 THEN "`" \o n \o "`" ELSE n
Parens(cs, i) == "(" \o JoinStr([k \in 1..Len(cs) |-> ColSpell(cs[k], i)], IF i = 0 THEN "," ELSE ", ") \o ")"
Using(i) == IF i = 1 THEN K(" USING BTREE") ELSE ""
KeyDecl(text, kind, name, cs) == [text |-> text, kind |-> kind, name |-> name, cols |-> cs]
PkDecls == UNION { { KeyDecl(K(w) \o Using(i) \o " " \o Parens(cs, i), "pk", "", cs) : w \in {"PRIMARY KEY", "CONSTRAINT pk_x PRIMARY KEY", "CONSTRAINT PRIMARY KEY"} } : i \in 0..2, cs \in KeyCols }
UqDecls(n) == UNION { { KeyDecl(w[1] \o Using(i) \o " " \o Parens(cs, i), "uq", w[2], cs) :
                        w \in {<<K("UNIQUE"), "">>, <<K("UNIQUE KEY"), "">>, <<K("UNIQUE KEY ") \o n, n>>, <<K("UNIQUE INDEX ") \o "`" \o n \o "`", n>>, <<K("UNIQUE ") \o n, n>>,
                               <<K("CONSTRAINT ") \o n \o K(" UNIQUE"), n>>, <<K("CONSTRAINT ") \o n \o K(" UNIQUE KEY"), n>>} } : i \in 0..2, cs \in KeyCols }
IxDecls(n) == { KeyDecl(K(w) \o " " \o Parens(cs, 0), "idx", "", cs) : w \in {"KEY", "INDEX"}, cs \in KeyCols } \cup UNION { { KeyDecl(K(w) \o " " \o n \o Using(i) \o " " \o Parens(cs, i), "idx", n, cs) : w \in {"KEY", "INDEX"} } : i \in 0..2, cs \in KeyCols }
Other == { KeyDecl(t, "none", "", <<>>) : t \in {K("CONSTRAINT fk_x FOREIGN KEY (a) REFERENCES other_table (id)"), K("FOREIGN KEY (a) REFERENCES other_table (id) ON DELETE CASCADE"),
                                                 K("FULLTEXT KEY ft_x (b)")} }
Some(S) == CHOOSE x \in S : TRUE
KeySeqs == { <<k>> : k \in PkDecls \cup UqDecls("uq_one") \cup IxDecls("idx_one") \cup Other }
           \cup { <<x, y>> : x \in { k \in PkDecls \cup UqDecls("uq_one") \cup IxDecls("idx_one") : Len(k.cols) = 2 /\ ~HasText(k.text, "(3)") }, y \in { k \in UqDecls("uq_two") \cup IxDecls("idx_two") : Len(k.cols) <= (IF Deep THEN 2 ELSE 1) } \cup Other }
ChooseKeys ==
    /\ out = NoChoice /\ part = <<>> /\ UNCHANGED <<part, low>>
    /\ \E ks \in { k \in KeySeqs : ~low \/ Deep \/ Len(k) = 1 } :
                              out' = [keys |-> ks, text |-> JoinStr([i \in 1..Len(ks) |-> ks[i].text], ",\n")]
Next == Choose \/ ChooseKeys

Done == out # NoChoice
\* ---- the meaning of the declaration
PlainCol(n, ty) == [name |-> n, type |-> ty, notnull |-> FALSE, autoinc |-> FALSE, default |-> NoVal, onupdate |-> NoVal, comment |-> "", after |-> ""]
OfKind(k) == SelectSeq(out.keys, LAMBDA x : x.kind = k)
Stmt == IF part = <<>>
        THEN [op |-> "createTable", table |-> "tab", comment |-> "",
              cols |-> << PlainCol("a", Ty("int", <<>>)), PlainCol("b", Ty("varchar", <<"20">>)), PlainCol("c", Ty("datetime", <<>>)) >>,
              pk |-> IF OfKind("pk") = <<>> THEN <<>> ELSE OfKind("pk")[1].cols,
              uqs |-> [i \in 1..Len(OfKind("uq")) |-> [name |-> OfKind("uq")[i].name, cols |-> OfKind("uq")[i].cols]],
              idx |-> [i \in 1..Len(OfKind("idx")) |-> [name |-> OfKind("idx")[i].name, cols |-> OfKind("idx")[i].cols]]]
        ELSE [op |-> "createTable", table |-> "tab", comment |-> "", cols |-> << [name |-> "c", after |-> ""] @@ out.col >>,
              pk |-> If(out.pk, "c"), uqs |-> If(out.unique, [name |-> "c", cols |-> <<"c">>]), idx |-> <<>>]
NoOpts == [author |-> "", version |-> "", groups |-> "", excludes |-> <<>>]
Meant == ImportMySql(<<Stmt>>, NoOpts)
IsSchema == Done => WellFormed(Meant) /\ IsCanonical(Meant)
\* what was imported comes back from its own export
Returns == Done => /\ MySqlRoundTrip(Meant, "", NoOpts) = Meant
                   /\ ImportMySql(MySqlScript(Meant, "_uq"), NoOpts) = Meant
                   /\ Run(EmptyDb, MySqlScript(Meant, "_uq")).bad = {}

Emit == Done => PrintT("CASE " \o ToJson(IF part = <<>> THEN [keys |-> TRUE, text |-> out.text, stmt |-> Stmt]
                                          ELSE [keys |-> FALSE, text |-> out.text, stmt |-> Stmt]))
=============================================================================
