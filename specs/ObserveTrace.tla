---------------------------- MODULE ObserveTrace ----------------------------
(***************************************************************************)
(* Recorded runs of one problem that are looked at in different ways.  The *)
(* first one is alone: it defines Advance (the solution and the time after *)
(* every step).  Every answer is learned when it is first given.  All      *)
(* others must go on as the first, and get the same answers.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Rat
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, pos, n, alone, said, bad
vars == << sc, pos, n, alone, said, bad >>
Ev(s, k) == Traces[s].events[k]
Agrees(s, e, f) == LET a == TLCEval(RArr(e.v)) b == TLCEval(RArr(f.v)) IN
   /\ TShape(a, b) /\ RLe(TDist(a, b), RMul(R(Traces[s].cfg.tol), RAdd(R(1), TMax(b))))
Empty == [x \in {} |-> 0]
Init == sc \in 1..Len(Traces) /\ pos = 0 /\ n = 0 /\ alone = << >> /\ said = Empty /\ bad = {}
First(s, k) == \A j \in 1..k : Ev(s, j).op # "end"
Next == /\ pos < Len(Traces[sc].events)
        /\ pos' = pos + 1 /\ UNCHANGED sc
        /\ LET k == pos + 1 e == Ev(sc, k) IN
           CASE e.op = "run" -> n' = 0 /\ UNCHANGED << alone, said >> /\ bad' = {}
             [] e.op = "step" -> /\ n' = n + 1 /\ UNCHANGED said
                                 /\ IF First(sc, k) THEN alone' = Append(alone, k) /\ bad' = {}
                                    ELSE /\ UNCHANGED alone
                                         /\ bad' = IF n + 1 <= Len(alone)
                                                   THEN (IF Agrees(sc, e, Ev(sc, alone[n + 1])) THEN {} ELSE {"solution-after-being-looked-at"})
                                                   ELSE {"more-steps"}
             [] e.op = "answer" -> LET q == << e.what, e.n, e.place >> IN
                                 /\ said' = IF q \in DOMAIN said THEN said ELSE (q :> k) @@ said
                                 /\ bad' = IF q \in DOMAIN said /\ ~ Agrees(sc, e, Ev(sc, said[q])) THEN {"answer-" \o e.what} ELSE {}
                                 /\ UNCHANGED << n, alone >>
             [] e.op = "end" -> UNCHANGED << n, alone, said >> /\ bad' = IF n = Len(alone) THEN {} ELSE {"fewer-steps"}
             [] OTHER -> UNCHANGED << n, alone, said >> /\ bad' = {"raised-" \o e.what}
Spec == Init /\ [][Next]_vars
Conforms == bad = {} \/ PrintT("MISMATCH " \o ToString(<< sc, pos, bad >>))
=============================================================================
