------------------------------ MODULE MC_Life -------------------------------
(***************************************************************************)
(* Whole histories, exhaustively: what a workspace goes through when the   *)
(* user writes and removes files and converts schemas to DDL and workbooks *)
(* and back, each file read and overwritten in turn (the input by its own  *)
(* output, too), wrong and missing inputs included.                        *)
(*                                                                         *)
(* The tool is replaced by the reference implementation the specification  *)
(* defines (Result).  Theorems: the tool of the specification can exist -  *)
(* no step of the reference is rejected in any history; the demands bind - *)
(* every way a step can go wrong is rejected in every history; every       *)
(* schema file the tool wrote is canonical; and conversions reach a fixed  *)
(* point.  Every complete history is emitted as a case for the real tool.  *)
(***************************************************************************)
EXTENDS Octopus, Json

CONSTANTS Depth,        \* number of steps
          Linear        \* TRUE: every step reads what the last one wrote

VARIABLES fs, mem, hist, bad, weak, ended
vars == <<fs, mem, hist, bad, weak, ended>>

NoC == [name |-> "", type |-> "int64", desc |-> "", size |-> 0, scale |-> 0, notnull |-> FALSE, pk |-> FALSE, unique |-> FALSE,
        autoinc |-> FALSE, default |-> "", onupdate |-> "", values |-> <<>>, ref |-> <<>>]
Id == [NoC EXCEPT !.name = "id", !.pk = TRUE, !.autoinc = TRUE]
T(n, g, cs, ix) == [name |-> n, desc |-> "all of " \o n, group |-> g, className |-> IF g = "core" THEN "Big" \o n ELSE "", columns |-> cs, indices |-> ix]
Sch(ts) == [author |-> "me", name |-> "db", version |-> "1", tables |-> ts]
\* tables out of order, synonyms, and what the formats cannot express: groups, references, bit(1), a unique key on a key
Schema1 == Sch(<< T("shop", "core", << Id, [NoC EXCEPT !.name = "code", !.type = "String", !.size = 20, !.unique = TRUE, !.notnull = TRUE, !.default = "x y"],
                                      [NoC EXCEPT !.name = "on_sale", !.type = "bit", !.size = 1],
                                      [NoC EXCEPT !.name = "touched", !.type = "timestamp", !.default = "fn::NOW", !.onupdate = "fn::CURRENT_TIMESTAMP"] >>,
                             << [name |-> "ix_code", columns |-> <<"code", "on_sale">>] >>),
                T("item", "", << Id, [NoC EXCEPT !.name = "shop_id", !.ref = <<[table |-> "shop", column |-> "id", relationship |-> ""]>>],
                                 [NoC EXCEPT !.name = "price", !.type = "numeric", !.size = 10, !.scale = 2, !.notnull = TRUE, !.default = "0"] >>, <<>>) >>)
Schema2 == Sch(<< T("shop", "core", << [Id EXCEPT !.unique = TRUE], [NoC EXCEPT !.name = "kind", !.type = "enum", !.values = <<"a", "b">>, !.default = "b"] >>, <<>>),
                 T("stock", "core", << [NoC EXCEPT !.name = "code", !.type = "char", !.size = 3, !.pk = TRUE], [NoC EXCEPT !.name = "number", !.pk = TRUE, !.type = "tinyint", !.size = 1] >>, <<>>) >>)

Files == {"a.json", "b.ojson"}
Books == {"w.xlsx"}
Cmds == {"export-mysql", "import-mysql", "export-xlsx", "import-xlsx", "generate-plantuml", "diff-md"}
Modelled == {"export-mysql", "import-mysql", "export-xlsx", "import-xlsx"}
OptsOf(cmd) ==
    CASE cmd = "export-mysql" -> {[groups |-> "", suffix |-> "_uq"]} \cup (IF Linear THEN {} ELSE {[groups |-> "core", suffix |-> ""]})
      [] cmd = "import-mysql" -> {[author |-> "you", excludes |-> <<>>, version |-> "7"]}
      [] cmd = "export-xlsx" -> {[nullcol |-> FALSE]} \cup (IF Linear THEN {[nullcol |-> TRUE]} ELSE {})
      [] cmd = "diff-md" -> {[author |-> "", groups |-> "", suffix |-> "", comments |-> TRUE]}
      [] OTHER -> {[none |-> TRUE]}
Outs(cmd) == IF cmd = "export-xlsx" THEN Books ELSE IF cmd \in Modelled THEN Files ELSE {"leaf"}
Ins(cmd) == IF cmd = "diff-md" THEN { <<f, g>> : f \in Files, g \in Files } ELSE { <<f>> : f \in Files \cup Books }

(***************************************************************************)
(* The reference implementation.                                           *)
(***************************************************************************)
RowsOf(s, g, nullcol) ==
    LET ts == SelectSeq(s.tables, LAMBDA t : t.group = g) IN
    Concat([i \in 1..Len(ts) |-> (IF i = 1 THEN <<>> ELSE <<Blank>>) \o TableRows(ts[i], nullcol)])
GroupsOf(s) == SetToSortSeq({ s.tables[i].group : i \in 1..Len(s.tables) }, StrLess)
Workbook(s, nullcol) ==
    << [name |-> "Meta", rows |-> << <<"author", s.author>>, <<"name", s.name>>, <<"version", s.version>> >>] >>
    \o [i \in 1..Len(GroupsOf(s)) |-> [name |-> SheetOf(GroupsOf(s)[i]), rows |-> << Header(nullcol) >> \o RowsOf(s, GroupsOf(s)[i], nullcol)]]
Result(cmd, ins, opts) ==
    CASE cmd = "export-mysql" -> MySqlScript(Selected(ins[1], opts.groups), opts.suffix)
      [] cmd = "import-mysql" -> ImportMySql(ins[1], opts)
      [] cmd = "export-xlsx" -> Workbook(ins[1], opts.nullcol)
      [] cmd = "import-xlsx" -> Canon(FromXlsx(ins[1]))
      [] OTHER -> ""
Step(cmd, ins, out, opts) ==
    LET e0 == [op |-> "run", cmd |-> cmd, ins |-> ins, out |-> out, opts |-> opts, writable |-> TRUE, valid |-> TRUE, rc |-> "fail", crashed |-> FALSE,
               changed |-> <<>>, outchanged |-> FALSE, said |-> TRUE, msg |-> "", obs |-> [kind |-> "none", val |-> "", dig |-> "", err |-> ""],
               judge |-> cmd \in Modelled, remember |-> TRUE]
    IN  IF ~MustSucceed(fs, e0) THEN e0
        ELSE LET val == Result(cmd, [i \in 1..Len(ins) |-> Meaning(fs[ins[i]])], opts)
             IN  [e0 EXCEPT !.rc = "ok", !.said = FALSE, !.outchanged = TRUE,
                            !.obs = [kind |-> OutputKind(cmd), val |-> val, dig |-> ToString(val), err |-> ""]]

\* everything that could go wrong with a step
Broken(e) ==
    { [e EXCEPT !.rc = IF @ = "ok" THEN "fail" ELSE "ok", !.outchanged = FALSE, !.said = TRUE],
      [e EXCEPT !.changed = <<"other">>], [e EXCEPT !.crashed = TRUE] }
    \cup (IF e.rc # "ok" THEN { [e EXCEPT !.outchanged = TRUE], [e EXCEPT !.said = FALSE] }
          ELSE { [e EXCEPT !.obs.kind = "malformed"] }
               \cup (IF \E k \in 1..Len(mem) : mem[k].cmd = e.cmd /\ mem[k].opts = e.opts /\ mem[k].ins = [i \in 1..Len(e.ins) |-> Meaning(fs[e.ins[i]])]
                     THEN { [e EXCEPT !.obs.dig = "other"] } ELSE {})
               \cup (IF ~e.judge THEN {}
                     ELSE IF e.obs.kind = "schema"
                     THEN { [e EXCEPT !.obs.val.version = "0"] } \cup
                          IF e.obs.val.tables = <<>> THEN {} ELSE
                          { [e EXCEPT !.obs.val.tables = Tail(@)], [e EXCEPT !.obs.val.tables[1].columns = Tail(@)], [e EXCEPT !.obs.val.tables[1].columns[1].notnull = ~@],
                            [e EXCEPT !.obs.val.tables = Append(@, [@[1] EXCEPT !.name = "a"])],
                            [e EXCEPT !.obs.val.tables[1].columns[1].type = "String"] }
                     ELSE IF e.obs.val = <<>> THEN {} ELSE { [e EXCEPT !.obs.val = Tail(@)], [e EXCEPT !.obs.val = Append(@, @[1])] }))

Init == /\ fs = ("a.json" :> [kind |-> "schema", val |-> Schema1, dig |-> "1", src |-> <<>>])
        /\ mem = <<>> /\ hist = <<>> /\ bad = {} /\ weak = {} /\ ended = FALSE
Live == ~ended /\ Len(hist) < Depth
LastOut == IF hist = <<>> THEN "a.json" ELSE IF hist[Len(hist)].op = "run" THEN hist[Len(hist)].out ELSE hist[Len(hist)].file

RunTool ==
    /\ Live
    /\ \E cmd \in (IF Linear THEN Modelled ELSE Cmds) : \E ins \in Ins(cmd) : \E out \in Outs(cmd) : \E opts \in OptsOf(cmd) :
        LET e == Step(cmd, ins, out, opts) IN
        /\ Linear => ins[1] = LastOut /\ e.rc = "ok"
        \* of the ways to fail, one of a kind is enough
        /\ e.rc # "ok" => /\ out = CHOOSE o \in Outs(cmd) : o \in DOMAIN fs \/ Outs(cmd) \cap DOMAIN fs = {}
                         /\ opts = CHOOSE o \in OptsOf(cmd) : TRUE
        /\ fs' = AfterRun(fs, e)
        /\ mem' = AfterMem(fs, mem, e)
        /\ bad' = bad \cup RunFailures(fs, mem, e)
        /\ weak' = { x \in Broken(e) : RunFailures(fs, mem, x) = {} }
        /\ hist' = Append(hist, [op |-> "run", cmd |-> cmd, ins |-> ins, out |-> out, opts |-> opts, rc |-> e.rc])
        /\ ended' = (e.rc # "ok")
UserWrites ==
    /\ Live /\ ~Linear /\ hist # <<>>
    /\ \E f \in Files : /\ fs' = (f :> [kind |-> "schema", val |-> Schema2, dig |-> "2", src |-> <<>>]) @@ fs
                        /\ hist' = Append(hist, [op |-> "put", file |-> f])
    /\ UNCHANGED <<mem, bad, weak, ended>>
UserRemoves ==
    /\ Live /\ ~Linear /\ hist # <<>>
    /\ \E f \in DOMAIN fs \cap Files : /\ fs' = [g \in DOMAIN fs \ {f} |-> fs[g]]
                         /\ hist' = Append(hist, [op |-> "rm", file |-> f])
    /\ UNCHANGED <<mem, bad, weak, ended>>
Next == RunTool \/ UserWrites \/ UserRemoves

\* ---- theorems
Possible == bad = {}
Binding == weak = {}
ToolFilesCanonical == \A f \in DOMAIN fs : fs[f].src # <<>> /\ fs[f].kind = "schema" => IsCanonical(fs[f].val) /\ WellFormed(fs[f].val)
\* the second trip through a format loses nothing that the first one kept
FixedPoint ==
    \A f \in DOMAIN fs : fs[f].src # <<>> /\ fs[f].kind = "schema" =>
        LET s == fs[f].src[1] IN
        (/\ s.gen >= 4
         /\ \/ s.cmd = "import-mysql" /\ s.up[1].cmd = "export-mysql" /\ s.up[1].up[1].cmd = "import-mysql" /\ s.up[1].opts.groups = ""
            \/ s.cmd = "import-xlsx" /\ s.up[1].cmd = "export-xlsx" /\ s.up[1].up[1].cmd = "import-xlsx")
        => fs[f].val = s.up[1].ins[1]
Emit == /\ (hist = <<>>) => PrintT("CASE " \o ToJson([schemas |-> <<Schema1, Schema2>>]))
        /\ (ended \/ Len(hist) = Depth) => PrintT("CASE " \o ToJson([hist |-> hist]))
=============================================================================
