------------------------------ MODULE OctNames ------------------------------
(***************************************************************************)
(* The naming rules the code generators share: the model of a table, and   *)
(* the field of a column in each target language.                          *)
(***************************************************************************)
EXTENDS OctSchema

\* prefixes are taken off one after another, in the order given
StripPrefixes(n, removes) == FoldLeft(LAMBDA acc, p : IF HasPrefix(acc, p) THEN DropPrefix(acc, p) ELSE acc, n, removes)

\* "P" is a prefix for every group; "g1:P1,g2:P2" maps groups to prefixes (the last one given counts)
ColonAt(tok) == CHOOSE i \in 1..Len(tok) : Ch(tok, i) = ":" /\ \A j \in 1..(i - 1) : Ch(tok, j) # ":"
GroupValue(group, map) ==
    LET toks == SplitStr(map, ",")
        mine == SelectSeq(toks, LAMBDA k : SubSeq(k, 1, ColonAt(k) - 1) = group)
    IN  IF mine = <<>> THEN "" ELSE LET k == mine[Len(mine)] IN SubSeq(k, ColonAt(k) + 1, Len(k))
GroupPrefix(group, prefix) == IF HasText(prefix, ":") THEN GroupValue(group, prefix) ELSE prefix

TableModelName(t, prefix, removePrefix) ==
    GroupPrefix(t.group, prefix) \o UpperCamel(StripPrefixes(t.name, SplitStr(removePrefix, ",")))
ModelName(t, prefix, removePrefix) ==
    IF t.className # "" THEN t.className ELSE TableModelName(t, prefix, removePrefix)

\* a name needs no mapping when snake case gives the column back
GoField(n) ==
    LET u == UpperCamel(n)
        v == IF HasSuffix(u, "Id") THEN SubSeq(u, 1, Len(u) - 2) \o "ID" ELSE u
    IN  IF v # "" /\ IsNum(Ch(v, 1)) THEN "_" \o v ELSE v
GoFieldMapped(n) == Snake(UpperCamel(n)) # n \/ (UpperCamel(n) # "" /\ IsNum(Ch(UpperCamel(n), 1)))

KtField(n) == LowerCamel(n)
KtFieldMapped(n) == Snake(LowerCamel(n)) # n

PyReserved == {"and", "as", "assert", "async", "await", "break", "class", "continue", "def", "del", "elif", "else", "except",
               "finally", "for", "from", "global", "if", "import", "in", "is", "lambda", "nonlocal", "not", "or", "pass",
               "raise", "return", "try", "while", "with", "yield"}
PySnake(n) == Snake(Lower(n))
PyField(n) == IF PySnake(n) \in PyReserved THEN PySnake(n) \o "_" ELSE PySnake(n)
PyFieldMapped(n) == PyField(n) # n

PbField(n) == LowerCamel(n)
GqlField(n) == LowerCamel(n)

\* all names of a sequence are different
Distinct(seq) == \A i, j \in 1..Len(seq) : i # j => seq[i] # seq[j]
=============================================================================
