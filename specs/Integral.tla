------------------------------ MODULE Integral -------------------------------
(***************************************************************************)
(* The integral over a channel of a field given on its mesh: Chebyshev     *)
(* points in one direction, uniform points in the two periodic ones.  It is *)
(* the integral of the interpolating polynomial in the wall-normal          *)
(* direction, times the cell sizes of the periodic ones.  Exact for every   *)
(* polynomial of degree below the number of points (checked here).          *)
(***************************************************************************)
EXTENDS Channel, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
\* integral over [-1,1] of T_m-1
IntT(n) == TLCEval([m \in 1..n |-> IF m % 2 = 0 THEN R(0) ELSE RDiv(R(2), R(1 - (m-1)*(m-1)))])
\* weights of the points: w_j sum_m T_m(x_j) int(T_m) / (T_m, T_m)
Wts(n, quad) == LET tv == TAt(n, quad) w == Weights(n, quad) h == Norms(n, quad) t == IntT(n)
                    a == TLCEval([m \in 1..n |-> RDiv(t[m], h[m])]) IN
   TLCEval([j \in 1..n |-> RMul(w[j], RDot(tv[j], a))])
\* x^p at point j is cos^p
PowAt(n, quad) == LET tv == TAt(n, quad) IN [j \in 1..n |-> tv[j][2]]
Moment(n, quad, p) == LET w == Wts(n, quad) x == PowAt(n, quad) IN RDot(w, TLCEval([j \in 1..n |-> RPow(x[j], p)]))
Exact(n, quad) == \A p \in 0..n-1 : RLe(RAbs(RSub(Moment(n, quad, p), IF p % 2 = 1 THEN R(0) ELSE RDiv(R(2), R(p + 1)))), RPow(R("1/2"), 90))
ASSUME \A n \in {4, 5, 8, 9} : \A quad \in {"GC", "GL"} : Exact(n, quad)
\* e.u: values by wall-normal point, each the list of values on the plane
Value(e) == LET w == Wts(e.n, e.quad) u == RArr(e.u) IN
   RMul(RMul(R(e.cell[1]), R(e.cell[2])), RDot(w, TLCEval([j \in 1..e.n |-> RSum(u[j])])))
Scale(e) == RMul(RMul(R(e.cell[1]), R(e.cell[2])), RMul(R(2*e.n), RMul(R(Len(e.u[1])), TMax(RArr(e.u)))))
VARIABLES sc, pos, bad
vars == << sc, pos, bad >>
\* the value is on the first process, the others get 0
IntBad(s, e) == LET v == TLCEval(Value(e)) IN
   (IF RLe(RAbs(RSub(R(e.values[1]), v)), RMul(R(Traces[s].cfg.tol), Scale(e))) THEN {} ELSE {"integral"})
   \cup (IF \A r \in 2..Len(e.values) : REq(R(e.values[r]), R(0)) THEN {} ELSE {"other-processes"})
   \cup (IF e.untouched THEN {} ELSE {"field-changed"})
Init == sc \in 1..Len(Traces) /\ pos = 0 /\ bad = {}
Next == /\ pos < Len(Traces[sc].events)
        /\ pos' = pos + 1 /\ UNCHANGED sc
        /\ LET e == Traces[sc].events[pos + 1] IN
           bad' = IF e.op = "integral" THEN IntBad(sc, e) ELSE {"raised-" \o e.what}
Spec == Init /\ [][Next]_vars
Conforms == bad = {} \/ PrintT("MISMATCH " \o ToString(<< sc, pos, bad >>))
=============================================================================
