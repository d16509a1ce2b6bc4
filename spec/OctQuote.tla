------------------------------- MODULE OctQuote -----------------------------
(***************************************************************************)
(* Quoted text of the target languages: how a text is written (Quote...)   *)
(* and how the language reads it (Read..., a one-pass automaton).  A       *)
(* reader yields <<[text, rest]>>, or <<>> when the token does not end.    *)
(***************************************************************************)
EXTENDS OctText

Escaped(s, marks, how(_)) == FoldLeft(LAMBDA acc, i : acc \o (IF Ch(s, i) \in marks THEN how(Ch(s, i)) ELSE Ch(s, i)), "", Idx(s))
Backslashed(c) == "\\" \o c
Doubled(c) == c \o c

(***************************************************************************)
(* A reader: quote q; `escapes`: a backslash takes the next character      *)
(* literally; `doubles`: two quotes stand for one; `stops`: characters     *)
(* that mean something else inside the token, so that it is no plain text. *)
(***************************************************************************)
RECURSIVE Scan(_, _, _, _, _, _, _)
Scan(s, i, acc, q, escapes, doubles, stops) ==
    IF i > Len(s) THEN <<>>
    ELSE LET c == Ch(s, i) IN
    IF escapes /\ c = "\\" THEN IF i = Len(s) THEN <<>> ELSE Scan(s, i + 2, acc \o Ch(s, i + 1), q, escapes, doubles, stops)
    ELSE IF c = q THEN IF doubles /\ i < Len(s) /\ Ch(s, i + 1) = q THEN Scan(s, i + 2, acc \o q, q, escapes, doubles, stops)
                       ELSE << [text |-> acc, rest |-> SubSeq(s, i + 1, Len(s))] >>
    ELSE IF c \in stops THEN <<>>
    ELSE Scan(s, i + 1, acc \o c, q, escapes, doubles, stops)
ReadQuoted(s, q, escapes, doubles, stops) == IF s = "" \/ Ch(s, 1) # q THEN <<>> ELSE Scan(s, 2, "", q, escapes, doubles, stops)

\* MySQL: '...' with backslash escapes and doubled quotes
QuoteSql(s) == "'" \o Escaped(s, {"'", "\\"}, LAMBDA c : IF c = "'" THEN Doubled(c) ELSE Backslashed(c)) \o "'"
ReadSql(s) == ReadQuoted(s, "'", TRUE, TRUE, {})
\* Go, Python, protobuf: "..." with backslash escapes
QuoteGo(s) == "\"" \o Escaped(s, {"\"", "\\"}, Backslashed) \o "\""
ReadGo(s) == ReadQuoted(s, "\"", TRUE, FALSE, {})
\* Kotlin: as Go, and a dollar sign begins a template
QuoteKt(s) == "\"" \o Escaped(s, {"\"", "\\", "$"}, Backslashed) \o "\""
ReadKt(s) == ReadQuoted(s, "\"", TRUE, FALSE, {"$"})
\* DBML: '...' with backslash escapes
QuoteDbml(s) == "'" \o Escaped(s, {"'", "\\"}, Backslashed) \o "'"
ReadDbml(s) == ReadQuoted(s, "'", TRUE, FALSE, {})
\* YAML: '...', only quotes are doubled
QuoteYaml(s) == "'" \o Escaped(s, {"'"}, Doubled) \o "'"
ReadYaml(s) == ReadQuoted(s, "'", FALSE, TRUE, {})
=============================================================================
