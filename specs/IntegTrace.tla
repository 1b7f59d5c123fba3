----------------------------- MODULE IntegTrace -----------------------------
(***************************************************************************)
(* Trace validation of the integrators.  A scenario is one integrator      *)
(* obtained from the code and the steps it was asked to make; prev points  *)
(* to the previous step of this integrator (AB2 and first-same-as-last     *)
(* schemes remember its last evaluation), 0 before the first one.          *)
(***************************************************************************)
EXTENDS Integrators, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, pos, prev, bad
vars == << sc, pos, prev, bad >>
Ev(s, k) == Traces[s].events[k]
A(x) == TLCEval(RArr(x))

Near(a, b, tol) == /\ TShape(a, b)
                   /\ RLe(TDist(a, b), RMul(tol, RAdd(R(1), TMax(a))))
Table(s) == CASE s.integrator = "RK4" -> RK4T
              [] s.integrator = "ForwardEuler" -> EulerT
              [] s.integrator \in {"BS5_fixed", "BS5_adaptive"} -> BS5T
Fsal(s) == s.integrator \in {"BS5_fixed", "BS5_adaptive"}

\* all stage states are as the tableau says.  asked: the states, f: the tendencies of all stages
StagesOk(T, dt, u, asked, f, first, tol) ==
   \A i \in first..Len(T.A) : Near(Stage(T, dt, u, f, i), A(asked[i - first + 1]), tol)

\* evaluations of a trial completed with the remembered first stage f1 (<< >>: none)
Complete(ev, f1) == IF f1 = << >> THEN ev.f ELSE << f1 >> \o ev.f

OneStep(s, e, k) == LET T == Table(s) dt == R(e.dt) u == A(e.u0) tol == R(s.tol)
      n == Len(T.A) m == Len(e.asked) f == A(e.f) IN
   IF ~ (m = n \/ (Fsal(s) /\ prev # 0 /\ m = n - 1)) THEN {"number-of-evaluations"}
   ELSE LET pe == Ev(sc, prev)
            full == IF m = n THEN f ELSE << A(pe.f[Len(pe.f)]) >> \o f
            first == IF m = n THEN 1 ELSE 2 IN
     (IF StagesOk(T, dt, u, e.asked, full, first, tol) THEN {} ELSE {"stage-states"})
     \cup (IF Near(Final(T, dt, u, full), A(e.u1), tol) THEN {} ELSE {"final-state"})

AB2Step(s, e, k) == LET dt == R(e.dt) u == A(e.u0) tol == R(s.tol) f == A(e.f) IN
   IF Len(f) # 1 THEN {"number-of-evaluations"}
   ELSE (IF Near(u, A(e.asked[1]), tol) THEN {} ELSE {"stage-states"})
     \cup (LET want == IF prev = 0 THEN Lin(<<R(1), dt>>, <<u, f[1]>>)
                       ELSE Lin(<<R(1), RMul(R("3/2"), dt), RMul(R("-1/2"), R(Ev(sc, prev).dt))>>, <<u, f[1], A(Ev(sc, prev).f[1])>>)
           IN IF Near(want, A(e.u1), tol) THEN {} ELSE {"final-state"})

StepBad(s, e, k) ==
   (IF s.integrator = "AB2" THEN AB2Step(s, e, k) ELSE OneStep(s, e, k))
   \cup (IF e.inplace THEN {} ELSE {"not-in-place"})
   \cup (IF REq(R(e.took), R(e.dt)) THEN {} ELSE {"step-size-taken"})
   \cup (IF REq(R(e.next), R(e.dt)) THEN {} ELSE {"step-size-next"})

(* ---- adaptive steps: a sequence of trials, all but the last rejected ---- *)
\* f1 the remembered first stage, dt the trial size, facmax its limit
RECURSIVE TrialsBad(_, _, _, _, _, _, _)
TrialsBad(s, e, j, dt, f1, facmax, tol) ==
   LET t == e.trials[j] T == BS5T u == A(e.u0) n == 8 m == Len(t.asked) lastone == j = Len(e.trials)
   IN IF ~ (m = n \/ (f1 # << >> /\ m = n - 1)) THEN {"number-of-evaluations"}
      ELSE LET f == A(t.f)
               full == IF m = n THEN f ELSE << f1 >> \o f
               first == IF m = n THEN 1 ELSE 2
               unew == Final(T, dt, u, full)
               est2 == TLCEval(Est2(R(s.TOL), ErrVec(T, dt, full), u, unew, s.nmodes))
               unsure == RLe(RAbs(RSub(est2, R(1))), R("1e-9"))
               accept == RLe(est2, R(1))
               nxt == IF lastone THEN R(e.next) ELSE R(e.trials[j+1].dt)
               fac == RDiv(nxt, dt)
           IN (IF StagesOk(T, dt, u, t.asked, full, first, tol) THEN {} ELSE {"stage-states"})
              \cup (IF unsure \/ accept = lastone THEN {} ELSE IF lastone THEN {"accepted-above-tolerance"} ELSE {"rejected-within-tolerance"})
              \cup (IF FacOk(fac, est2, facmax, R("1e-7")) THEN {} ELSE {"next-step-size"})
              \cup (IF lastone THEN
                      (IF Near(unew, A(e.u1), tol) THEN {} ELSE {"final-state"})
                      \cup (IF RLe(RAbs(RSub(R(e.took), dt)), RMul(R("1e-14"), dt)) THEN {} ELSE {"step-size-taken"})
                    ELSE (IF t.unchanged THEN {} ELSE {"rejected-trial-changes-state"})
                         \cup (IF RLe(RAbs(RSub(R(t.announced), dt)), RMul(R("1e-14"), dt)) THEN {} ELSE {"announced-step-size"})
                         \cup TrialsBad(s, e, j + 1, nxt, full[1], R(1), tol))
AdaptBad(s, e, k) == LET f1 == IF prev = 0 THEN << >> ELSE
                              LET p == Ev(sc, prev).trials q == p[Len(p)] IN A(q.f[Len(q.f)]) IN
   (IF e.trials = << >> THEN {"number-of-evaluations"}
    ELSE (IF RLe(RAbs(RSub(R(e.trials[1].dt), R(e.dt))), RMul(R("1e-14"), R(e.dt))) THEN {} ELSE {"first-trial-size"})
         \cup TrialsBad(s, e, 1, R(e.dt), f1, R(2), R(s.tol)))
   \cup (IF e.inplace THEN {} ELSE {"not-in-place"})

Bad(s, k) == LET e == Ev(s, k) IN
   CASE e.op = "step" -> StepBad(Traces[s].cfg, e, k)
     [] e.op = "adapt" -> AdaptBad(Traces[s].cfg, e, k)
     [] e.op = "raised" -> {"raised-" \o e.what}
     [] OTHER -> {}
Init == sc \in 1..Len(Traces) /\ pos = 0 /\ prev = 0 /\ bad = {}
Next == /\ pos < Len(Traces[sc].events)
        /\ pos' = pos + 1
        /\ prev' = IF Ev(sc, pos + 1).op \in {"step", "adapt"} THEN pos + 1 ELSE prev
        /\ bad' = Bad(sc, pos + 1)
        /\ UNCHANGED sc
Spec == Init /\ [][Next]_vars
\* a state reached by an event that is not a step of the specification is reported
Conforms == bad = {} \/ PrintT("MISMATCH " \o ToString(<< sc, pos, bad >>))
=============================================================================
