----------------------------- MODULE FlowTrace -----------------------------
(***************************************************************************)
(* Trace validation of the periodic solvers.  A scenario is one context of *)
(* the real solver and the calls made to it, in order.  The state of the   *)
(* specification is what a solver is allowed to remember between calls:    *)
(* the source term, the parameters, and the last right-hand side           *)
(* evaluation (whose pressure it keeps).  src and last point into the      *)
(* trace; bad collects the clauses an event breaks.                        *)
(***************************************************************************)
EXTENDS Flow, Json, IOUtils, FiniteSets

Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES sc, pos, src, par, last, prev, bad
vars == << sc, pos, src, par, last, prev, bad >>

Ev(s, k) == Traces[s].events[k]
Cfg(s) == LET c == Traces[s].cfg IN
   [ solver |-> c.solver, form |-> c.form, mask |-> c.mask,
     g |-> [ n |-> c.n, ks |-> TLCEval(RArr(c.ks)), dealias |-> c.dealias ] ]
Fields(x) == TLCEval(RArr(x))
ParOf(s, k) == LET e == Ev(s, k) IN [ nu |-> R(e.nu), eta |-> R(e.eta), Ri |-> R(e.Ri), Pr |-> R(e.Pr) ]
Src(s, k) == IF k = 0 THEN << >> ELSE Fields(Ev(s, k).f)

Tol(s) == R(Traces[s].cfg.tol)
RECURSIVE MaxF(_, _)
MaxF(fs, j) == IF j = 0 THEN R(1) ELSE RMax(FMax(fs[j]), MaxF(fs, j - 1))
\* modes whose values are compared (with the 3/2-rule and without masking the Nyquist modes of a
\* product depend on how padding splits them, which the property does not talk about)
Compared(c, h, k) == ~ (c.g.dealias = "3/2-rule" /\ ~ c.mask /\ OnNyquist(c.g.n, k))
AllClose(c, a, b, tol) == LET ms == Modes(c.g.n) IN
   /\ Len(a) = Len(b)
   /\ \A j \in 1..Len(a) : /\ Len(a[j]) = Len(b[j])
                           /\ \A h \in 1..Len(a[j]) : Compared(c, h, ms[h]) => CClose(a[j][h], b[j][h], tol)
SameBits(a, b) == a = b

RhsBad(s, e) == LET c == Cfg(s) u == Fields(e.u) out == Fields(e.out)
      r == Rhs(c, ParOf(s, par), u, Src(s, src))
      tol == RMul(Tol(s), MaxF(r.out, Len(r.out))) IN
   (IF AllClose(c, r.out, out, tol) THEN {} ELSE {"rhs-value"})
   \cup (IF "p" \notin DOMAIN e THEN {}
         ELSE IF AllClose(c, << r.p >>, << Fields(e.p) >>, tol) THEN {} ELSE {"rhs-pressure"})
   \cup (IF SameBits(e.u, e.after) THEN {} ELSE {"rhs-modifies-state"})
   \cup (IF e.inplace THEN {} ELSE {"rhs-not-in-output-array"})

StepBad(s, e, k) == LET c == Cfg(s) u0 == Fields(e.u0) u1 == Fields(e.u1) dt == R(e.dt)
      F(u) == Rhs(c, ParOf(s, par), u, Src(s, src)).out
      want == CASE e.integrator = "RK4" -> StepRK4(F, dt, u0)
                [] e.integrator = "ForwardEuler" -> StepEuler(F, dt, u0)
                [] e.integrator = "AB2" -> StepAB2(F, dt, u0, IF prev = 0 THEN << >> ELSE Fields(Ev(s, prev).u0))
      tol == RMul(Tol(s), MaxF(want, Len(want))) IN
   IF AllClose(c, want, u1, tol) THEN {} ELSE {"step-value"}

\* what an accessor must return, as spectral fields
Want(s, e) == LET c == Cfg(s) kk == KsAll(c.g) u == Fields(e.u) v == Velocity(c, u) IN
   CASE e.what = "velocity"   -> [j \in 1..Len(Used(c)) |-> v[Used(c)[j]]]
     [] e.what = "curl"       -> IF c.solver = "VV" THEN u
                                 ELSE IF c.solver \in {"NS2D", "Bq2D"} THEN << FNeg(Curl(kk, v)[2]) >>
                                 ELSE Curl(kk, v)
     [] e.what = "divergence" -> << Div(kk, v) >>
     [] e.what = "density"    -> << u[3] >>
     [] e.what = "all"        -> u
     [] e.what = "pressure"   -> LET q == Rhs(c, ParOf(s, par), Fields(Ev(s, last).u), Src(s, src)).p IN
                                 << TLCEval([h \in 1..Len(q) |-> CScale(R(-1), MulI(q[h]))]) >>
PhysClose(want, got, tol) == /\ Len(want) = Len(got)
                             /\ \A m \in 1..Len(want) : RLe(RAbs(RSub(want[m], got[m])), tol)
GetBad(s, e) == LET c == Cfg(s) w == Want(s, e)
      p == TLCEval([j \in 1..Len(w) |-> ToPhysical(c.g.n, w[j])])
      got == RArr(e.out) IN
   (IF Len(got) = Len(p) /\ \A j \in 1..Len(p) :
        PhysClose(p[j], got[j], RMul(Tol(s), RMul(R(4), RAdd(R(1), RMaxAbs(p[j])))))
    THEN {} ELSE {"get-" \o e.what})
   \cup (IF SameBits(e.u, e.after) THEN {} ELSE {"get-" \o e.what \o "-modifies-state"})

\* setting the velocity from physical values: out are the spectral coefficients
SetBad(s, e) == LET c == Cfg(s) out == Fields(e.out) phys == RArr(e.phys)
      p == TLCEval([j \in 1..Len(out) |-> ToPhysical(c.g.n, out[j])]) IN
   IF Len(phys) = Len(p) /\ \A j \in 1..Len(p) : PhysClose(p[j], phys[j], RMul(Tol(s), RMul(R(4), RAdd(R(1), RMaxAbs(p[j])))))
   THEN {} ELSE {"set-velocity"}

Bad(s, k) == LET e == Ev(s, k) IN
   CASE e.op = "rhs" -> RhsBad(s, e)
     [] e.op = "step" -> StepBad(s, e, k)
     [] e.op = "get" -> GetBad(s, e)
     [] e.op = "set" -> SetBad(s, e)
     [] e.op = "raised" -> {"raised-" \o e.what}
     [] OTHER -> {}

Init == /\ sc \in 1..Len(Traces)
        /\ pos = 0 /\ src = 0 /\ par = 0 /\ last = 0 /\ prev = 0 /\ bad = {}
Next == /\ pos < Len(Traces[sc].events)
        /\ pos' = pos + 1
        /\ LET e == Ev(sc, pos + 1) IN
           /\ src'  = IF e.op = "source" THEN pos + 1 ELSE src
           /\ par'  = IF e.op = "params" THEN pos + 1 ELSE par
           /\ last' = IF e.op = "rhs" THEN pos + 1 ELSE last
           /\ prev' = IF e.op = "step" THEN pos + 1 ELSE IF e.op = "run" THEN 0 ELSE prev
        /\ bad' = Bad(sc, pos + 1)
        /\ UNCHANGED sc
Spec == Init /\ [][Next]_vars

\* a state reached by an event that is not a step of the specification is reported
Conforms == bad = {} \/ PrintT("MISMATCH " \o ToString(<< sc, pos, bad >>))
=============================================================================
