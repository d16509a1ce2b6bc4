------------------------------- MODULE MC_Text ------------------------------
(***************************************************************************)
(* Free text, exhaustively: every short string over the characters that    *)
(* mean something to one of the target languages.  The quoting rules of    *)
(* OctQuote are shown to be inverse to the lexers they are written for,    *)
(* and every string is emitted as a case for the real tool.                *)
(***************************************************************************)
EXTENDS OctQuote, Json

CONSTANTS Wide,        \* longest string over all the characters
          Deepest      \* longest string over the quoting characters

VARIABLES s, narrow
vars == <<s, narrow>>

Quoting == {"'", "\"", "\\", "`", "a"}
Special == Quoting \cup {" ", ",", ";", ":", "#", "%", "-", "/", "*", "$", "{", "}", "(", ")", "[", "]", "<", ">", "&", "|", "!", "?", "=", "@", "~", "^", "+", ".", "0", "N"}
\* words that a reader without quotes takes for something else
Literals == {"true", "No", "yes", "null", "NULL", "~", "1e3", "0x1F", "1_000", "007", "+1", "-0", ".5", "1.", ".inf", "NaN", "2020-01-01", "12:30:45", "- x", "? x",
             "a: b", "a #b", "%s", "%d%%", "${x}", "{{x}}", "{% x %}", "<a href=\"x\">", "&amp;", "&lt;", "--", "-- x", "/* x */", "*/", "//", "=1+1", "''", "'''", "\"\"\"",
             "fn:", "fn", "\\n", "\\u0041", "CURRENT_TIMESTAMP", "DEFAULT", "it's", "O'Reilly", "a|b", "FK", "PK", "| --- |", "[x](y)", "**b**", "_i_", "@Foo", "x y  z"}

Init == \/ s = "" /\ narrow \in BOOLEAN
        \/ s \in Literals /\ narrow = FALSE
Next == \/ /\ narrow /\ Len(s) < Deepest /\ \E c \in Quoting : s' = s \o c
           /\ UNCHANGED narrow
        \/ /\ ~narrow /\ s \notin Literals /\ Len(s) < Wide /\ \E c \in Special : s' = s \o c
           /\ UNCHANGED narrow

\* what is written is one token, and reads as what was meant
ReadsBack ==
    /\ ReadSql(QuoteSql(s)) = <<[text |-> s, rest |-> ""]>>
    /\ ReadGo(QuoteGo(s)) = <<[text |-> s, rest |-> ""]>>
    /\ ReadKt(QuoteKt(s)) = <<[text |-> s, rest |-> ""]>>
    /\ ReadDbml(QuoteDbml(s)) = <<[text |-> s, rest |-> ""]>>
    /\ ReadYaml(QuoteYaml(s)) = <<[text |-> s, rest |-> ""]>>
\* also when something follows
Closed ==
    /\ ReadSql(QuoteSql(s) \o ", 'x'") = <<[text |-> s, rest |-> ", 'x'"]>>
    /\ ReadGo(QuoteGo(s) \o ")\"") = <<[text |-> s, rest |-> ")\""]>>
    /\ ReadKt(QuoteKt(s) \o ")$x\"") = <<[text |-> s, rest |-> ")$x\""]>>
\* not quoting is right for the harmless strings only
Naive == ReadSql("'" \o s \o "'") = <<[text |-> s, rest |-> ""]>> <=> ~HasText(s, "'") /\ ~HasText(s, "\\")

Emit == (narrow => Len(s) > Wide) => (s # "" => PrintT("CASE " \o ToJson(s)))
=============================================================================
