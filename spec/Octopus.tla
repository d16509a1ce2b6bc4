------------------------------ MODULE Octopus ------------------------------
(***************************************************************************)
(* The tool as a state machine over a workspace of files.                  *)
(*                                                                         *)
(*   fs  : file name -> [kind, val, dig]    the files of the workspace     *)
(*   mem : sequence of completed runs [cmd, ins, opts, dig], the history   *)
(*         that "same input, same bytes" quantifies over                   *)
(*                                                                         *)
(* The user writes files (UserWrites); the tool runs commands (Runs).  A   *)
(* run either succeeds and replaces its output file by an artefact that    *)
(* conforms to its inputs, or fails and changes nothing.  Which of the two *)
(* must happen is decided by MustSucceed; what conforming means is decided *)
(* by ArtefactFails, one operator per command.                             *)
(***************************************************************************)
EXTENDS OctCode

\* what each command reads and writes
InputKind(cmd) ==
    CASE cmd = "import-mysql" -> "ddl"
      [] cmd = "import-xlsx" -> "xlsx"
      [] cmd = "import-ojson" -> "ojson"
      [] cmd = "import-staruml" -> "staruml"
      [] OTHER -> "schema"
OutputKind(cmd) ==
    CASE cmd \in {"import-mysql", "import-xlsx", "import-ojson", "import-staruml", "init"} -> "schema"
      [] cmd = "export-mysql" -> "ddl"
      [] cmd = "export-xlsx" -> "xlsx"
      [] OTHER -> cmd

\* inputs the tool must accept; e is the recorded run
Readable(fs, cmd, f) ==
    /\ f \in DOMAIN fs
    /\ fs[f].kind = InputKind(cmd)
    /\ fs[f].kind = "schema" => WellFormed(fs[f].val)
    /\ fs[f].kind = "ojson" => WellFormed(FromOjson(fs[f].val))
    /\ fs[f].kind = "xlsx" => NamesTables(fs[f].val) /\ WellFormed(FromXlsx(fs[f].val))
    /\ fs[f].kind = "staruml" => fs[f].val.models # <<>> /\ RefsResolve(fs[f].val) /\ WellFormed(FromStaruml(fs[f].val))
\* relation annotations of the generated tables name tables of the schema
RelationsFound(fs, e) ==
    (e.cmd = "generate-kt" /\ e.opts.relation = "VRelation") =>
        LET s == fs[e.ins[1]].val IN \A t \in Range(Sel(s, e.opts.groups)) : RefsAmong(t, s.tables) = RefCols(t)
MustSucceed(fs, e) == e.writable /\ e.valid /\ (\A i \in 1..Len(e.ins) : Readable(fs, e.cmd, e.ins[i])) /\ RelationsFound(fs, e)

\* the meaning of an input file
Meaning(c) == IF c.kind = "schema" THEN Canon(c.val) ELSE c.val

\* the sample schema of `init`
InitSchema ==
    LET no == [name |-> "", type |-> "", desc |-> "", size |-> 0, scale |-> 0, notnull |-> FALSE, pk |-> FALSE, unique |-> FALSE,
               autoinc |-> FALSE, default |-> "", onupdate |-> "", values |-> <<>>, ref |-> <<>>]
        id == [no EXCEPT !.name = "id", !.type = "int64", !.desc = "unique id", !.pk = TRUE, !.autoinc = TRUE]
        name(d) == [no EXCEPT !.name = "name", !.type = "varchar", !.desc = d, !.size = 40, !.unique = TRUE]
        gid == [no EXCEPT !.name = "group_id", !.type = "int64", !.desc = "group ID",
                          !.ref = <<[table |-> "group", column |-> "id", relationship |-> "n:1"]>>]
        tab(n, d, cs) == [name |-> n, desc |-> d, group |-> "", className |-> "", indices |-> <<>>, columns |-> cs]
    IN  [author |-> "", name |-> "", version |-> "1.0.0",
         tables |-> <<tab("group", "Group table", <<id, name("group name")>>), tab("user", "User table", <<id, name("user login name"), gid>>)>>]

\* every octopus file the tool writes is canonical
WrittenFails(cmd, val) == IF OutputKind(cmd) = "schema" THEN Holds(IsCanonical(val), "not-canonical", cmd) \cup Holds(WellFormed(val), "not-well-formed", cmd) ELSE {}

ArtefactFails(cmd, ins, opts, val) ==
    CASE cmd = "export-mysql" -> ExportMySqlFails(ins[1], opts, val)
      [] cmd = "import-mysql" -> ImportMySqlFails(ins[1], opts, val)
      [] cmd = "generate-liquibase" -> GenLiquibaseFails(ins[1], opts, val)
      [] cmd = "diff-liquibase" -> DiffLiquibaseFails(ins[1], ins[2], opts, val)
      [] cmd = "diff-flyway" -> DiffFlywayFails(ins[1], ins[2], opts, val)
      [] cmd = "diff-md" -> DiffMdFails(ins[1], ins[2], opts, val)
      [] cmd = "import-ojson" -> ImportOjsonFails(ins[1], val)
      [] cmd = "import-staruml" -> ImportStarumlFails(ins[1], val)
      [] cmd = "import-xlsx" -> ImportXlsxFails(ins[1], val)
      [] cmd = "export-xlsx" -> ExportXlsxFails(ins[1], opts, val)
      [] cmd = "generate-gorm" -> GenGormFails(ins[1], opts, val)
      [] cmd = "generate-sqlalchemy" -> GenSqlAlchemyFails(ins[1], opts, val)
      [] cmd = "generate-pb" -> GenPbFails(ins[1], opts, val)
      [] cmd = "generate-graphql" -> GenGraphqlFails(ins[1], opts, val)
      [] cmd = "generate-kt" -> GenKtFails(ins[1], opts, val)
      [] cmd = "export-dbml" -> ExportDbmlFails(ins[1], opts, val)
      [] cmd = "export-quickdbd" -> ExportQuickFails(ins[1], opts, val)
      [] cmd = "generate-plantuml" -> GenPumlFails(ins[1], opts, val)
      [] cmd = "init" -> DiffSchema(InitSchema, val)
      [] OTHER -> {<<"unmodelled-command", cmd, "", "">>}

(***************************************************************************)
(* Provenance.  Every file written by the tool remembers the run it came   *)
(* from, so that properties of whole histories - what comes back after an  *)
(* export and an import - can be stated on the state.                      *)
(*   src == <<>> for user files, else                                      *)
(*          <<[cmd, opts, ins (meanings), dig (of first input), gen, up]>> *)
(***************************************************************************)
Gen(f) == IF f.src = <<>> THEN 0 ELSE f.src[1].gen
NewSrc(fs, e) ==
    << [cmd |-> e.cmd, opts |-> e.opts, ins |-> [i \in 1..Len(e.ins) |-> Meaning(fs[e.ins[i]])],
        dig |-> IF e.ins = <<>> THEN "" ELSE fs[e.ins[1]].dig,
        gen |-> 1 + (IF e.ins = <<>> THEN 0 ELSE Gen(fs[e.ins[1]])),
        up |-> IF e.ins = <<>> THEN <<>> ELSE fs[e.ins[1]].src] >>

HistoryFails(fs, e) ==
    IF e.ins = <<>> \/ fs[e.ins[1]].src = <<>> THEN {}
    ELSE LET from == fs[e.ins[1]].src[1] IN
    IF e.cmd = "import-mysql" /\ from.cmd = "export-mysql"
    THEN LET rt == MySqlRoundTrip(from.ins[1], from.opts.groups, e.opts) IN DiffSchema(rt, Unnamed(rt, e.obs.val))
    ELSE IF e.cmd = "import-xlsx" /\ from.cmd = "export-xlsx"
    THEN { <<"round-trip: " \o b[1], b[2], b[3], b[4]>> : b \in DiffSchema(XlsxRoundTrip(from.ins[1]), e.obs.val) }
    ELSE IF e.cmd = "export-mysql" /\ from.cmd = "import-mysql" /\ from.gen >= 4 /\ e.opts.groups = ""
            /\ from.opts.excludes = <<>> /\ from.up[1].opts = e.opts /\ from.up[1].up[1].cmd = "import-mysql"
    THEN Same("ddl-of-reimported-schema", e.out, from.dig, e.obs.dig)
    ELSE {}

(***************************************************************************)
(* Frame: a run changes nothing but its output, and nothing at all when it *)
(* fails.  e.changed lists the files (other than the output) whose bytes   *)
(* differ after the run, e.outchanged says whether the output differs.     *)
(***************************************************************************)
FrameFails(e) ==
    { <<"changed-other-file", e.cmd, f, "">> : f \in Range(e.changed) }
    \cup (IF e.rc = "ok" THEN {} ELSE Holds(~e.outchanged, "failed-run-touched-output", e.cmd))
    \cup (IF e.rc = "ok" THEN {} ELSE Holds(e.said, "failed-run-is-silent", e.cmd))
    \cup Holds(~e.crashed, "run-crashed", e.cmd)

RunFailures(fs, mem, e) ==
    FrameFails(e) \cup
    IF MustSucceed(fs, e) THEN
        IF e.rc # "ok" THEN {<<"must-succeed", e.cmd, e.msg, "">>}
        ELSE IF e.obs.kind # OutputKind(e.cmd) THEN {<<"malformed-output", e.cmd, e.obs.kind, e.obs.err>>}
        ELSE LET ins == [i \in 1..Len(e.ins) |-> Meaning(fs[e.ins[i]])] IN
             (IF e.judge THEN ArtefactFails(e.cmd, ins, e.opts, e.obs.val) \cup WrittenFails(e.cmd, e.obs.val) \cup HistoryFails(fs, e) ELSE {})
             \cup UNION { IF mem[k].cmd = e.cmd /\ mem[k].opts = e.opts /\ mem[k].ins = ins
                          THEN Same("same-input-same-bytes", e.cmd, mem[k].dig, e.obs.dig) ELSE {} : k \in 1..Len(mem) }
    ELSE Holds(e.rc # "ok", "must-fail", e.cmd)

AfterRun(fs, e) ==
    IF e.rc = "ok" /\ e.obs.kind # "malformed"
    THEN (e.out :> [kind |-> e.obs.kind, val |-> e.obs.val, dig |-> e.obs.dig, src |-> IF e.judge THEN NewSrc(fs, e) ELSE <<>>]) @@ fs
    ELSE fs
AfterMem(fs, mem, e) ==
    IF e.rc = "ok" /\ e.remember
    THEN Append(mem, [cmd |-> e.cmd, opts |-> e.opts, dig |-> e.obs.dig,
                      ins |-> [i \in 1..Len(e.ins) |-> Meaning(fs[e.ins[i]])]])
    ELSE mem
=============================================================================
