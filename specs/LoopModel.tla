----------------------------- MODULE LoopModel -----------------------------
(***************************************************************************)
(* Every run of the loop over small integer times, with every behaviour of *)
(* the integrator (any step taken up to the requested one, any next size)  *)
(* and of the end-of-step hook (stop or not, keep, shorten or enlarge the  *)
(* step).  Complete runs are printed as scripts and replayed into          *)
(* spectralDNS.solve.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxT, MaxDt, MaxSteps, Dump
ISame(a, b) == a = b
ISum(a, b, c) == c = a + b
IFits(t, dt, T) == t + dt <= T
L == INSTANCE Loop WITH Same <- ISame, Sum <- ISum, Fits <- IFits

VARIABLES st, script, done
vars == << st, script, done >>

Init == /\ \E t \in 0..1, dt \in 1..MaxDt, T \in 0..MaxT, n \in {0, 3} :
              /\ st = L!Start([t |-> t, dt |-> dt, T |-> T, tstep |-> n])
              /\ script = [t |-> t, dt |-> dt, T |-> T, tstep |-> n, steps |-> << >>]
        /\ done = 0           \* completed steps

Do(e, time) == L!Wrong(st, e) = {} /\ st' = L!After(st, e, time)
Integrate == /\ done < MaxSteps
             /\ \E took \in 1..MaxDt, next \in 1..MaxDt :
                  /\ took <= st.dt
                  /\ Do([op |-> "integrate", dt |-> st.dt, next |-> next, sol |-> st.sol + 1], st.t + took)
                  /\ script' = [script EXCEPT !.steps = Append(@, [took |-> took, next |-> next, stop |-> FALSE, newdt |-> 0])]
             /\ UNCHANGED done
Update == Do([op |-> "update", t |-> st.t, tstep |-> st.n, sol |-> st.sol], 0) /\ UNCHANGED << script, done >>
Output == Do([op |-> "output", t |-> st.t, tstep |-> st.n, sol |-> st.sol], 0) /\ UNCHANGED << script, done >>
EndHook == \E stop \in BOOLEAN, newdt \in 1..MaxDt :
              /\ Do([op |-> "endhook", t |-> st.t, tstep |-> st.n, ret |-> stop, newdt |-> newdt], 0)
              /\ newdt # st.dt => (st.t + newdt = st.T \/ newdt = MaxDt)      \* the interesting changes
              /\ script' = [script EXCEPT !.steps[Len(script.steps)] = [@ EXCEPT !.stop = stop, !.newdt = newdt]]
              /\ done' = done + 1
Regression == ~ st.reg /\ Do([op |-> "regression", t |-> st.t, sol |-> st.sol], 0) /\ UNCHANGED << script, done >>
Close == st.reg /\ ~ st.closed /\ Do([op |-> "close"], 0) /\ UNCHANGED << script, done >>
Return == Do([op |-> "return", dt |-> st.dt0, t |-> st.t, tstep |-> st.n], 0) /\ UNCHANGED << script, done >>
Next == Integrate \/ Update \/ Output \/ EndHook \/ Regression \/ Close \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* what the loop guarantees, over all behaviours *)
Counter   == st.n = script.tstep + Len(script.steps) /\ st.sol = Len(script.steps)
NeverLate == st.t <= st.T \/ st.t = script.t
Maximal   == st.at = "over" => (st.stop \/ st.t + st.dt > st.T)
Clean     == st.at = "over" => st.reg /\ st.closed
Ends      == <>(st.at = "over" \/ done = MaxSteps)
Dumped    == (Dump /\ st.at = "over") => PrintT(<< "SCRIPT", ToJson(script) >>)
=============================================================================
