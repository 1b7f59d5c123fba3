----------------------------- MODULE ForceTrace -----------------------------
EXTENDS Forcing, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, pos, bad
vars == << sc, pos, bad >>
Close3(a, b, tol) == \A i \in 1..3 : Len(a[i]) = Len(b[i]) /\ LET m == RMul(tol, RMax(FMax(a[1]), RMax(FMax(a[2]), FMax(a[3])))) IN
                        \A h \in 1..Len(a[i]) : CClose(a[i][h], b[i][h], m)
Same(a, b) == \A h \in 1..Len(a) : REq(a[h][1], b[h][1]) /\ REq(a[h][2], b[h][2])
Rel(x, y, tol) == RLe(RAbs(RSub(x, y)), RMul(tol, RAbs(y)))
Grid(s) == Traces[s].cfg
InitBad(s, e) == LET g == Grid(s) n == g.n tol == R(g.tol) kk == KsAll([n |-> n, ks |-> RArr(g.ks)]) u == RArr(e.u) e2 == Energy2Of(n, u, All(n))
                     t2 == RMul(RMul(RMul(R(g.re), R(g.re)), RMul(RMul(R(g.nu), R(g.kd)), RMul(R(g.nu), R(g.kd)))), RMul(RMul(R(g.nu), R(g.kd)), RMul(R(g.nu), R(g.kd)))) IN
   Start(n, kk, u, tol)
   \* (kinetic energy)^2 = Re^2 (nu kd)^4 / (20/3)
   \cup (IF Rel(RMul(RDiv(e2, R(2)), RDiv(e2, R(2))), RMul(t2, R("3/20")), RMul(R(10), tol)) THEN {} ELSE {"energy"})
   \cup (IF Rel(R(e.target), e2, RMul(R(10), tol)) THEN {} ELSE {"target"})
   \cup (IF e.w # << >> => Close3(CurlOf(kk, u), RArr(e.w), tol) THEN {} ELSE {"vorticity"})
ForceBad(s, e) == LET g == Grid(s) n == g.n tol == R(g.tol) kk == KsAll([n |-> n, ks |-> RArr(g.ks)])
                      u0 == IF g.vv THEN VelocityOf(kk, RArr(e.w)) ELSE RArr(e.u)
                      \* solvers that evolve the vorticity: that is the state
                      u1 == IF g.vv THEN VelocityOf(kk, RArr(e.wafter)) ELSE RArr(e.after) want == Force(n, kk, R(g.kf), R(e.target), u0) IN
   (IF Rel(Energy2Of(n, u1, All(n)), R(e.target), tol) THEN {} ELSE {"energy-not-restored"})
   \cup (IF Close3(want, u1, tol) THEN {} ELSE {"modes"})
   \cup (IF ~ g.vv => \A h \in 1..Size(n) : (Forced(kk, R(g.kf))[h] \/ IsMean(kk, h)) \/ \A i \in 1..3 : REq(u0[i][h][1], u1[i][h][1]) /\ REq(u0[i][h][2], u1[i][h][2])
         THEN {} ELSE {"unforced-modes"})
   \cup (IF e.wafter # << >> => Close3(CurlOf(kk, want), RArr(e.wafter), tol) THEN {} ELSE {"vorticity"})
FluxBad(s, e) == LET g == Grid(s) tol == R(g.tol) m0 == RArr(e.mean0) m1 == RArr(e.mean1) IN
   (IF Rel(Flux(R(e.area), m1), R(e.flux), tol) THEN {} ELSE {"flux"})
   \cup (IF \A k \in 2..Len(m0) : REq(m0[k][1], m1[k][1]) /\ REq(m0[k][2], m1[k][2]) THEN {} ELSE {"mean-profile"})
   \cup (IF REq(m0[1][2], m1[1][2]) THEN {} ELSE {"imaginary-mean"})
   \cup (IF Len(e.rest0) = Len(e.rest1) /\ \A j \in 1..Len(e.rest0) : Same(RArr(e.rest0[j]), RArr(e.rest1[j])) THEN {} ELSE {"other-modes"})
Init == sc \in 1..Len(Traces) /\ pos = 0 /\ bad = {}
Next == /\ pos < Len(Traces[sc].events)
        /\ pos' = pos + 1 /\ UNCHANGED sc
        /\ LET e == Traces[sc].events[pos + 1] IN
           bad' = CASE e.op = "start" -> InitBad(sc, e)
                    [] e.op = "force" -> ForceBad(sc, e)
                    [] e.op = "flux"  -> FluxBad(sc, e)
                    [] OTHER -> {"raised-" \o e.what}
Spec == Init /\ [][Next]_vars
Conforms == bad = {} \/ PrintT("MISMATCH " \o ToString(<< sc, pos, bad >>))
=============================================================================
