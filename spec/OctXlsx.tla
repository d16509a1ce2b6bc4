------------------------------ MODULE OctXlsx ------------------------------
(***************************************************************************)
(* Excel workbooks.  A workbook is a sequence of sheets [name, rows], a    *)
(* row a sequence of cell texts without trailing empty cells.              *)
(***************************************************************************)
EXTENDS OctImport

RECURSIVE TrimLeft(_)
TrimLeft(s) == IF HasPrefix(s, " ") \/ HasPrefix(s, "\n") \/ HasPrefix(s, "\t") THEN TrimLeft(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE TrimRight(_)
TrimRight(s) == IF HasSuffix(s, " ") \/ HasSuffix(s, "\n") \/ HasSuffix(s, "\t") THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimRight(TrimLeft(s))

Cell(row, k) == IF k <= Len(row) THEN Trim(row[k]) ELSE ""
RawCell(row, k) == IF k <= Len(row) THEN row[k] ELSE ""

(***************************************************************************)
(* The layout of an exported workbook.                                     *)
(***************************************************************************)
Header(nullcol) == << "table/ref.", "column", "type", "key", IF nullcol THEN "nullable" ELSE "not null", "attributes", "description" >>
RefSign(r) == IF r.relationship = "1:n" THEN "<" ELSE IF r.relationship = "1:1" THEN "-" ELSE ">"
RefCell(c) == IF c.ref = <<>> THEN "" ELSE RefSign(c.ref[1]) \o c.ref[1].table \o "." \o c.ref[1].column
KeyCell(c) == IF c.pk THEN "P" ELSE IF c.unique THEN "U" ELSE ""
Attributes(c) ==
    (IF c.autoinc THEN <<"autoInc">> ELSE <<>>)
    \o (IF c.default = "" THEN <<>> ELSE << "default=" \o c.default >>)
    \o (IF c.onupdate = "" THEN <<>> ELSE << "onUpdate=" \o c.onupdate >>)

TableRow(t) == << t.name, "", "table", "", "", IF t.className = "" THEN "" ELSE "class=" \o t.className, t.desc >>
ColumnRow(c, nullcol) ==
    << RefCell(c), c.name, FormatType(c), KeyCell(c), IF c.notnull # nullcol THEN "O" ELSE "", JoinStr(Attributes(c), ", "), c.desc >>
IndexRows(t) == Concat([i \in 1..Len(t.indices) |->
                    [j \in 1..Len(t.indices[i].columns) |-> << t.indices[i].name, t.indices[i].columns[j], "", "I", "", "", "" >>]])
TableRows(t, nullcol) == << TableRow(t) >> \o [i \in 1..Len(t.columns) |-> ColumnRow(t.columns[i], nullcol)] \o IndexRows(t)
GroupRows(s, g, nullcol) == Concat([i \in 1..Len(s.tables) |-> IF s.tables[i].group = g THEN TableRows(s.tables[i], nullcol) ELSE <<>>])

Pad(row) == [k \in 1..7 |-> IF k <= Len(row) THEN Trim(row[k]) ELSE ""]
Padded(rows) == [i \in 1..Len(rows) |-> Pad(rows[i])]
Blank == [k \in 1..7 |-> ""]
SheetOf(g) == IF g = "" THEN "Common" ELSE g

\* every table block is followed by a blank line, except the last one
SeparatedFails(rows, where) ==
    UNION { IF i > 2 /\ rows[i][3] = "table" THEN Holds(rows[i - 1] = Blank, "xlsx-no-blank-row", where) ELSE {} : i \in 1..Len(rows) }

MetaFails(s, rows) ==
    LET val(k) == { RawCell(rows[i], 2) : i \in { j \in 1..Len(rows) : RawCell(rows[j], 1) = k } } IN
    Same("xlsx-meta-author", "", {s.author}, val("author"))
    \cup Same("xlsx-meta-name", "", {s.name}, val("name"))
    \cup Same("xlsx-meta-version", "", {s.version}, val("version"))

RowFails(exp, obs, where) ==
    UNION { Same("xlsx-cell", where \o " row " \o ToString(i), exp[i], obs[i]) : i \in 1..Len(exp) }

ExportXlsxFails(s, opts, wb) ==
    LET groups == { s.tables[i].group : i \in 1..Len(s.tables) }
        sheets == {"Meta"} \cup { SheetOf(g) : g \in groups }
    IN  Same("xlsx-sheets", "", sheets, NameSet(wb))
        \cup Holds(Cardinality(NameSet(wb)) = Len(wb), "xlsx-sheet-repeated", ToString(Names(wb)))
        \cup (IF HasName(wb, "Meta") THEN MetaFails(s, ByName(wb, "Meta").rows) ELSE {})
        \cup UNION { IF ~HasName(wb, SheetOf(g)) THEN {}
                     ELSE LET rows == Padded(ByName(wb, SheetOf(g)).rows)
                              full == SelectSeq(rows, LAMBDA r : r # Blank)
                              exp == << Header(opts.nullcol) >> \o GroupRows(s, g, opts.nullcol)
                          IN  (IF Len(full) # Len(exp) THEN {<<"xlsx-rows", SheetOf(g), ToString(Len(exp)), ToString(Len(full))>>}
                               ELSE RowFails(exp, full, SheetOf(g)))
                              \cup SeparatedFails(rows, SheetOf(g)) : g \in groups }

(***************************************************************************)
(* The schema a workbook describes.                                        *)
(***************************************************************************)
ParseRef(text) ==
    LET parts == SplitStr(text, ".")
        sign == IF Len(text) > 0 THEN Ch(text, 1) ELSE ""
        tab == IF sign \in {">", "<", "-"} THEN DropPrefix(parts[1], sign) ELSE parts[1]
    IN  IF Len(parts) # 2 THEN <<>>
        ELSE IF tab = "" \/ parts[2] = "" THEN <<>>       \* not a reference
        ELSE << [table |-> tab, column |-> parts[2],
                 relationship |-> IF sign = "<" THEN "1:n" ELSE IF sign = "-" THEN "1:1" ELSE "n:1"] >>

\* value of an attribute, <<>> if it is not there
Attr(text, key) ==
    LET parts == SplitStr(text, ",")
        hits == SelectSeq(parts, LAMBDA p : UpTo(Trim(p), "=") = key)
    IN  IF hits = <<>> THEN <<>> ELSE << After(Trim(hits[1]), "=") >>
AttrText(text, key) == LET a == Attr(text, key) IN IF a = <<>> THEN "" ELSE a[1]

XlsxColumn(row, nullcol) ==
    LET ty == ParseType(Cell(row, 3)) IN
    [name |-> Cell(row, 2), type |-> ty.type, size |-> ty.size, scale |-> ty.scale, desc |-> Cell(row, 7),
     notnull |-> (Cell(row, 5) = "") = nullcol, pk |-> Cell(row, 4) = "P", unique |-> Cell(row, 4) = "U",
     autoinc |-> Attr(Cell(row, 6), "autoInc") # <<>> \/ Attr(Cell(row, 6), "autoinc") # <<>>,
     default |-> AttrText(Cell(row, 6), "default"), onupdate |-> AttrText(Cell(row, 6), "onUpdate"), values |-> <<>>,
     ref |-> ParseRef(Cell(row, 1))]

AddIndexColumn(t, name, c) ==
    IF HasName(t.indices, name)
    THEN [t EXCEPT !.indices = [i \in 1..Len(@) |-> IF @[i].name = name THEN [@[i] EXCEPT !.columns = Append(@, c)] ELSE @[i]]]
    ELSE [t EXCEPT !.indices = Append(@, [name |-> name, columns |-> <<c>>])]

\* one row read after another; the last table is the open one
SheetStep(tables, row, group, nullcol) ==
    IF Cell(row, 3) = "table"
    THEN Append(tables, [name |-> Cell(row, 1), desc |-> Cell(row, 7), group |-> group,
                         className |-> AttrText(Cell(row, 6), "class"), columns |-> <<>>, indices |-> <<>>])
    ELSE IF tables = <<>> \/ Cell(row, 2) = "" THEN tables
    ELSE LET t == tables[Len(tables)]
             u == IF Cell(row, 4) = "I" THEN AddIndexColumn(t, Cell(row, 1), Cell(row, 2))
                  ELSE [t EXCEPT !.columns = Append(@, XlsxColumn(row, nullcol))]
         IN  [tables EXCEPT ![Len(tables)] = u]
SheetTables(sheet) ==
    IF sheet.rows = <<>> THEN <<>>
    ELSE LET nullcol == Cell(sheet.rows[1], 5) # "not null"
             body == [i \in 1..(Len(sheet.rows) - 1) |-> sheet.rows[i + 1]]
         IN  FoldLeft(LAMBDA ts, row : SheetStep(ts, row, sheet.name, nullcol), <<>>, body)
MetaValue(wb, key) ==
    LET rows == IF HasName(wb, "Meta") THEN ByName(wb, "Meta").rows ELSE <<>>
        hits == SelectSeq(rows, LAMBDA r : RawCell(r, 1) = key)
    IN  IF hits = <<>> THEN "" ELSE RawCell(hits[Len(hits)], 2)
FromXlsx(wb) ==
    [author |-> MetaValue(wb, "author"), name |-> MetaValue(wb, "name"), version |-> MetaValue(wb, "version"),
     tables |-> Concat([i \in 1..Len(wb) |-> IF wb[i].name = "Meta" THEN <<>> ELSE SheetTables(wb[i])])]

\* a row that opens a table has to name it
NamesTables(wb) == \A i \in 1..Len(wb) : wb[i].name = "Meta" \/ \A j \in 2..Len(wb[i].rows) : Cell(wb[i].rows[j], 3) = "table" => Cell(wb[i].rows[j], 1) # ""
ImportXlsxFails(wb, schema) == DiffSchema(Canon(FromXlsx(wb)), schema)

(***************************************************************************)
(* What an export/import round trip keeps: everything but the unique flag  *)
(* of primary key columns, enum/set members and the difference between no  *)
(* group and the group Common.  A reference without relationship is n:1.   *)
(***************************************************************************)
XlsxSurvives(c) == [c EXCEPT !.unique = @ /\ ~c.pk, !.values = <<>>, !.scale = IF c.size = 0 THEN 0 ELSE @,
                             !.ref = IF @ = <<>> THEN @ ELSE << [@[1] EXCEPT !.relationship = IF @ = "" THEN "n:1" ELSE @] >>]
XlsxRoundTrip(s) ==
    Canon([s EXCEPT !.tables = [i \in 1..Len(@) |->
        [@[i] EXCEPT !.group = SheetOf(@), !.columns = [j \in 1..Len(@) |-> XlsxSurvives(@[j])]]]])
=============================================================================
