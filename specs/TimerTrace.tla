----------------------------- MODULE TimerTrace ----------------------------
(***************************************************************************)
(* Recorded runs of solve with a scripted clock: the report of process 0   *)
(* is that of Timer, the profile starts after the first completed step and *)
(* its summary is the minimum and maximum over processes, and the result   *)
(* of the run depends on none of it.                                       *)
(***************************************************************************)
EXTENDS Rat, Sequences, Json, IOUtils, TLC
T == INSTANCE Timer WITH LE <- RLe
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, pos, st, run, ref, bad
vars == << sc, pos, st, run, ref, bad >>
Ev(s, k) == Traces[s].events[k]
NP(s) == Traces[s].cfg.np
Nums(x) == [i \in 1..Len(x) |-> R(x[i])]
\* what process 0 printed; nothing else may be reported, nothing by the others
ReportBad(e) ==
   LET want == T!Report(st) IN
   (IF run.verbose THEN (IF e.times = 1 THEN {} ELSE {"number-of-reports"}) ELSE (IF e.times = 0 THEN {} ELSE {"report-though-not-verbose"}))
   \cup (IF e.elsewhere = 0 THEN {} ELSE {"report-of-another-process"})
   \cup (IF ~ run.verbose \/ e.times # 1 \/ st.n = 0 THEN {} ELSE
         (IF Nums(e.fastest) = want.fastest THEN {} ELSE {"fastest"}) \cup (IF Nums(e.slowest) = want.slowest THEN {} ELSE {"slowest"})
         \cup (IF R(e.total) = R(run.total) THEN {} ELSE {"total-time"}))
Mn(s) == T!LoAll(s)
Mx(s) == T!HiAll(s)
Item(q) == LET tot == Nums(q.tot) cum == Nums(q.cum) IN Nums(q.got) = << Mn(tot), Mx(tot), Mn(cum), Mx(cum) >>
\* calls counted by the profiler of a function called once per step, on every process
ProfileBad(e) ==
   LET counted == IF ~ run.profile THEN 0 ELSE IF st.n = 0 THEN 0 ELSE st.n - 1 IN
   (IF \A i \in DOMAIN e.calls : e.calls[i] = counted THEN {} ELSE {"profiled-steps"})
   \cup (IF \A i \in DOMAIN e.items : Item(e.items[i]) THEN {} ELSE {"profile-summary"})
   \cup (IF run.profile /\ st.n > 1 => e.summary THEN {} ELSE {"no-summary"})
Init == /\ sc \in 1..Len(Traces) /\ pos = 0 /\ bad = {} /\ ref = 0
        /\ st = T!Start(NP(sc)) /\ run = [verbose |-> FALSE, profile |-> FALSE, total |-> "0"]
Next == /\ pos < Len(Traces[sc].events)
        /\ pos' = pos + 1 /\ UNCHANGED sc
        /\ LET e == Ev(sc, pos + 1) IN
           /\ st' = CASE e.op = "run" -> T!Start(NP(sc)) [] e.op = "step" -> T!Step(st, Nums(e.d)) [] OTHER -> st
           /\ run' = IF e.op = "run" THEN [verbose |-> e.verbose, profile |-> e.profile, total |-> e.total] ELSE run
           /\ ref' = IF e.op = "result" /\ ref = 0 THEN pos + 1 ELSE ref
           /\ bad' = CASE e.op = "report" -> ReportBad(e) [] e.op = "profile" -> ProfileBad(e)
                       [] e.op = "result" -> IF ref = 0 \/ \A k \in 1..Len(e.sol) : k <= Len(Ev(sc, ref).sol) => e.sol[k] = Ev(sc, ref).sol[k] THEN {} ELSE {"result-changed"}
                       [] e.op = "raised" -> {"raised-" \o e.what} [] OTHER -> {}
Spec == Init /\ [][Next]_vars
Conforms == bad = {} \/ PrintT("MISMATCH " \o ToString(<< sc, pos, bad >>))
=============================================================================
