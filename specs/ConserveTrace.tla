--------------------------- MODULE ConserveTrace ----------------------------
(***************************************************************************)
(* Recorded tendencies and runs of the periodic solvers must conserve what *)
(* the dynamics conserves.  State: the parameters and the solution last    *)
(* seen (both as positions in the trace).                                  *)
(***************************************************************************)
EXTENDS Conserve, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, pos, par, cur, bad
vars == << sc, pos, par, cur, bad >>
Ev(s, k) == Traces[s].events[k]
Cfg(s) == LET c == Traces[s].cfg IN
   [ solver |-> c.solver, form |-> c.form, mask |-> c.mask, exact |-> FALSE,
     g |-> [ n |-> c.n, ks |-> TLCEval(RArr(c.ks)), dealias |-> c.dealias ] ]
ParOf(s, k) == LET e == Ev(s, k) IN [ nu |-> R(e.nu), eta |-> R(e.eta), Ri |-> R(e.Ri), Pr |-> R(e.Pr) ]
F(x) == TLCEval(RArr(x))
Tol(s) == R(Traces[s].cfg.tol)
RhsBad(s, e) == Broken(Cfg(s), ParOf(s, par), F(e.u), F(e.out), Tol(s)) \cup (IF e.u = e.after THEN {} ELSE {"rhs-modifies-state"})
StateBad(s, e) == LET c == Cfg(s) u == F(e.u) IN
   (IF Solenoidal(c, u, Tol(s)) THEN {} ELSE {"solenoidal-solution"})
   \cup (IF \A i \in 1..Len(u) : RealField(c.g.n, u[i], RMul(Tol(s), RAdd(R(1), TMax(u[i])))) THEN {} ELSE {"real-solution"})
   \cup (IF cur = 0 \/ ~ e.decays THEN {} ELSE
         IF RLe(Energy(c, u), RMul(RAdd(R(1), Tol(s)), Energy(c, F(Ev(s, cur).u)))) THEN {} ELSE {"energy-grows"})
   \cup (IF cur = 0 \/ ~ e.mean THEN {} ELSE
         LET a == F(Ev(s, cur).u) IN
         IF \A i \in 1..Len(u) : CClose(u[i][1], a[i][1], RMul(Tol(s), RAdd(R(1), TMax(u)))) THEN {} ELSE {"mean-changes"})
Init == sc \in 1..Len(Traces) /\ pos = 0 /\ par = 0 /\ cur = 0 /\ bad = {}
Next == /\ pos < Len(Traces[sc].events)
        /\ pos' = pos + 1 /\ UNCHANGED sc
        /\ LET e == Ev(sc, pos + 1) IN
           /\ par' = IF e.op = "params" THEN pos + 1 ELSE par
           /\ cur' = IF e.op = "state" THEN pos + 1 ELSE IF e.op = "run" THEN 0 ELSE cur
           /\ bad' = CASE e.op = "rhs" -> RhsBad(sc, e) [] e.op = "state" -> StateBad(sc, e)
                       [] e.op = "raised" -> {"raised-" \o e.what} [] OTHER -> {}
Spec == Init /\ [][Next]_vars
Conforms == bad = {} \/ PrintT("MISMATCH " \o ToString(<< sc, pos, bad >>))
=============================================================================
