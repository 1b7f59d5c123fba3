-------------------------------- MODULE Same --------------------------------
(***************************************************************************)
(* The solution of a problem is a function of the problem.  Executions of  *)
(* one problem that differ in something that must not matter (number of    *)
(* processes, decomposition, optimised kernels, an interruption, the order *)
(* of the axes) report observations: a label (what was observed, at which  *)
(* step) and a value.  The specification's state is the function learned   *)
(* so far; an observation must agree with it where it is defined, and all  *)
(* executions observe the same things.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Rat
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, pos, memo, seen, bad
vars == << sc, pos, memo, seen, bad >>
Ev(s, k) == Traces[s].events[k]
Val(s, k) == TLCEval(RArr(Ev(s, k).v))
\* memo: label -> event that defined it; seen: labels observed by the execution under way
Tol(s, e) == IF "tol" \in DOMAIN e THEN R(e.tol) ELSE R(Traces[s].cfg.tol)
Agrees(s, e, k) == LET a == Val(s, k) b == TLCEval(RArr(e.v)) IN
   /\ TShape(a, b)
   /\ RLe(TDist(a, b), RMul(Tol(s, e), RAdd(R(1), TMax(a))))
Empty == [x \in {} |-> 0]
Init == sc \in 1..Len(Traces) /\ pos = 0 /\ memo = Empty /\ seen = {} /\ bad = {}
First(s) == \A k \in 1..pos : Ev(s, k).op # "end"     \* the execution under way is the first one
Next == /\ pos < Len(Traces[sc].events)
        /\ pos' = pos + 1 /\ UNCHANGED sc
        /\ LET e == Ev(sc, pos + 1) IN
           CASE e.op = "begin" -> memo' = memo /\ seen' = {} /\ bad' = {}
             [] e.op = "obs" ->
                  /\ seen' = seen \cup {e.what}
                  /\ memo' = IF e.what \in DOMAIN memo THEN memo ELSE (e.what :> (pos + 1)) @@ memo
                  /\ bad' = IF e.what \in DOMAIN memo
                            THEN (IF Agrees(sc, e, memo[e.what]) THEN {} ELSE {"differs-" \o e.cls})
                            ELSE (IF First(sc) THEN {} ELSE {"extra-" \o e.cls})
             [] e.op = "end" -> /\ UNCHANGED << memo, seen >>
                                /\ bad' = IF seen = DOMAIN memo THEN {} ELSE {"observations-missing"}
             [] OTHER -> UNCHANGED << memo, seen >> /\ bad' = {"raised-" \o e.what}
Spec == Init /\ [][Next]_vars
\* a state reached by an event that is not a step of the specification is reported
Conforms == bad = {} \/ PrintT("MISMATCH " \o ToString(<< sc, pos, bad >>))
=============================================================================
