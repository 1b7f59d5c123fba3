----------------------------- MODULE KillTrace -----------------------------
(* Recorded runs with and without kill files are behaviours of Kill: an event is one output hook,      *)
(* with what each process saw and did.  st: stopped so far, checkpoint expected in the file.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Rat
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, pos, stopped, bad
vars == << sc, pos, stopped, bad >>
Ev(s, k) == Traces[s].events[k]
Procs(e) == 1..Len(e.sees)
HookBad(e) == LET kill == \E p \in Procs(e) : e.sees[p] IN
   (IF stopped THEN {"continued-after-stop"} ELSE {})
   \cup (IF \A p \in Procs(e) : e.step[p] = e.step[1] THEN {} ELSE {"processes-at-different-steps"})
   \cup (IF kill /\ ~ (\A p \in Procs(e) : e.gone[p]) THEN {"process-not-stopped"} ELSE {})
   \cup (IF ~ kill /\ (\E p \in Procs(e) : e.gone[p]) THEN {"stopped-without-kill-file"} ELSE {})
   \cup (IF kill /\ (\E p \in Procs(e) : e.gone[p] /\ e.code[p] = 0) THEN {"exit-status-zero"} ELSE {})
   \cup (IF kill /\ e.present THEN {"kill-file-not-removed"} ELSE {})
   \cup (IF kill /\ e.ck # e.step[1] THEN {"no-checkpoint-of-that-step"} ELSE {})
   \cup (IF kill /\ ~ e.ckdata THEN {"checkpoint-data"} ELSE {})
   \cup (IF e.others THEN {} ELSE {"other-files-removed"})
Bad(s, k) == LET e == Ev(s, k) IN
   CASE e.op = "hook" -> HookBad(e)
     [] e.op = "end"  -> IF stopped THEN (IF e.finished THEN {"continued-after-stop"} ELSE {})
                         ELSE (IF e.finished THEN {} ELSE {"stopped-without-kill-file"})
     [] e.op = "raised" -> {"raised-" \o e.what}
     [] OTHER -> {}
Init == sc \in 1..Len(Traces) /\ pos = 0 /\ stopped = FALSE /\ bad = {}
Next == /\ pos < Len(Traces[sc].events)
        /\ pos' = pos + 1
        /\ bad' = Bad(sc, pos + 1)
        /\ LET e == Ev(sc, pos + 1) IN
           stopped' = IF e.op = "run" THEN FALSE ELSE IF e.op = "hook" THEN stopped \/ (\E p \in Procs(e) : e.gone[p]) ELSE stopped
        /\ UNCHANGED sc
Spec == Init /\ [][Next]_vars
\* a state reached by an event that is not a step of the specification is reported
Conforms == bad = {} \/ PrintT("MISMATCH " \o ToString(<< sc, pos, bad >>))
=============================================================================
