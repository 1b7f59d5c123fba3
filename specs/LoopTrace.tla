----------------------------- MODULE LoopTrace -----------------------------
(* Recorded runs of spectralDNS.solve are behaviours of Loop. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Rat
Tiny == R("1e-14")
RSame(a, b) == RLe(RAbs(RSub(R(a), R(b))), Tiny)
RIsSum(a, b, c) == RLe(RAbs(RSub(R(c), RAdd(R(a), R(b)))), Tiny)
RFits(t, dt, T) == RLe(RAdd(R(t), R(dt)), RAdd(R(T), R("1e-12")))
L == INSTANCE Loop WITH Same <- RSame, Sum <- RIsSum, Fits <- RFits

Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, pos, st, bad
vars == << sc, pos, st, bad >>
Ev(s, k) == Traces[s].events[k]
None == [ at |-> "none" ]

\* the time after a step is what the program shows next, and must be the sum
Shown(e) == IF "shown" \in DOMAIN e THEN e.shown ELSE "0"
\* what the triply periodic solvers do at the end of a step: the run ends when the end time is reached, and only then;
\* a step that would pass it is shortened to reach it, and no other
Near(a, b) == RLe(RAbs(RSub(a, b)), R("1e-12"))
Hook(e, T) ==
    LET t == R(e.t)  new == R(e.newdt)  was == R(e.was)  end == R(T) IN
    IF RLe(RAbs(RSub(t, end)), R("9e-13")) THEN (IF e.ret THEN {} ELSE {"step-taken-past-the-end"})
    ELSE IF Near(t, end) THEN {}
    ELSE (IF e.ret THEN {"ended-before-the-end-time"} ELSE {})
         \cup (IF RLe(RAdd(t, was), RSub(end, R("2e-12"))) THEN (IF RLe(RAbs(RSub(new, was)), Tiny) THEN {} ELSE {"step-changed-though-it-fits"})
               ELSE IF RLe(RAdd(end, R("2e-12")), RAdd(t, was)) THEN (IF Near(RAdd(t, new), end) THEN {} ELSE {"step-passes-the-end"})
               ELSE (IF RLe(RAbs(RSub(RAdd(t, new), end)), R("3e-12")) THEN {} ELSE {"step-misses-the-end"}))
Extra(e) == (IF e.op # "integrate" THEN {}
             ELSE (IF RIsSum(st.t, e.took, e.shown) THEN {} ELSE {"time-not-advanced-by-step-taken"}))
            \cup (IF e.op = "return" /\ Traces[sc].cfg.land THEN
                    (IF RLe(RAbs(RSub(R(e.t), R(st.T))), R("1e-12")) THEN {} ELSE {"end-time-not-reached"}) ELSE {})
            \cup (IF e.op = "endhook" /\ Traces[sc].cfg.hook THEN Hook(e, st.T) ELSE {})
Init == sc \in 1..Len(Traces) /\ pos = 0 /\ st = None /\ bad = {}
Next == /\ pos < Len(Traces[sc].events)
        /\ pos' = pos + 1
        /\ UNCHANGED sc
        /\ LET e == Ev(sc, pos + 1) IN
           CASE e.op = "begin"  -> st' = L!Start(e) /\ bad' = {}
             [] e.op = "raised" -> st' = st /\ bad' = {"raised-" \o e.what}
             [] OTHER -> /\ bad' = L!Wrong(st, e) \cup Extra(e)
                         /\ st' = L!After(st, e, Shown(e))
Spec == Init /\ [][Next]_vars
\* a state reached by an event that is not a step of the specification is reported
Conforms == bad = {} \/ PrintT("MISMATCH " \o ToString(<< sc, pos, bad >>))
=============================================================================
