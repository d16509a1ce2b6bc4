----------------------------- MODULE OctTrace ------------------------------
(***************************************************************************)
(* Trace validation: recorded sessions of the real tool are behaviours of  *)
(* Octopus.  Every session is one initial state; every event must be an    *)
(* enabled step of the model.  A rejected event ends its session and is    *)
(* printed with the violated clauses; the harness also checks that the     *)
(* number of states equals the number of events, so that no session is     *)
(* skipped.                                                                *)
(***************************************************************************)
EXTENDS Octopus, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.OCT_TRACE)

VARIABLES sid, l, fs, mem, rej
vars == <<sid, l, fs, mem, rej>>

Init == /\ sid \in 1..Len(Sessions)
        /\ l = 1
        /\ fs = EmptyDb
        /\ mem = <<>>
        /\ rej = FALSE

Ev == Sessions[sid].events[l]
Enabled == ~rej /\ l <= Len(Sessions[sid].events)

UserWrites ==
    /\ Enabled
    /\ Ev.op = "put"
    /\ fs' = (Ev.file :> [kind |-> Ev.content.kind, val |-> Ev.content.val, dig |-> Ev.content.dig, src |-> <<>>]) @@ fs
    /\ l' = l + 1
    /\ UNCHANGED <<sid, mem, rej>>

UserRemoves ==
    /\ Enabled
    /\ Ev.op = "rm"
    /\ fs' = [f \in DOMAIN fs \ {Ev.file} |-> fs[f]]
    /\ l' = l + 1
    /\ UNCHANGED <<sid, mem, rej>>

\* a session is recorded for one property; clauses of other properties are not its business
InScope(b) == LET s == Sessions[sid] IN
    /\ s.only = <<>> \/ \E i \in 1..Len(s.only) : HasPrefix(b[1], s.only[i])
    /\ \A i \in 1..Len(s.skip) : ~HasPrefix(b[1], s.skip[i])

ToolRuns ==
    /\ Enabled
    /\ Ev.op = "run"
    /\ LET bad == { b \in RunFailures(fs, mem, Ev) : InScope(b) } IN
       IF bad = {}
       THEN /\ fs' = AfterRun(fs, Ev)
            /\ mem' = AfterMem(fs, mem, Ev)
            /\ rej' = FALSE
       ELSE /\ PrintT("REJECT " \o ToJson([session |-> Sessions[sid].id, event |-> l, bad |-> bad]))
            /\ rej' = TRUE
            /\ UNCHANGED <<fs, mem>>
    /\ l' = l + 1
    /\ UNCHANGED sid

Next == UserWrites \/ UserRemoves \/ ToolRuns
Spec == Init /\ [][Next]_vars
\* fingerprint only the position: the rest is a function of it
View == <<sid, l, rej>>
=============================================================================
