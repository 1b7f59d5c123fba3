---------------------------- MODULE ChannelTrace ----------------------------
(***************************************************************************)
(* Trace validation of the channel solvers.  A scenario is one context of  *)
(* a real solver.  run points to the event that (re)started time stepping, *)
(* before to the previous step (0 right after the start): that is all a    *)
(* channel solver may remember.  bad collects the clauses an event breaks. *)
(***************************************************************************)
EXTENDS Channel, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, pos, run, before, bad
vars == << sc, pos, run, before, bad >>

Ev(s, k) == Traces[s].events[k]
CfgOf(t) == LET c == t.cfg g == [ n |-> << 1, c.n[2], c.n[3] >>, ks |-> << R(1), R(c.ks[1]), R(c.ks[2]) >>, dealias |-> c.dealias ] IN
   [ n |-> c.n[1], quad |-> c.quad, form |-> c.form, mask |-> c.mask, wall |-> c.wall, scheme |-> c.scheme,
     nu |-> R(c.nu), kappa |-> R(c.kappa), rb |-> c.rb, dt |-> R(c.dt), tol |-> R(c.tol),
     g |-> g, roots |-> MeshRoots(g.n), proots |-> MeshRoots(Pad(g)) ]
Cfgs == TLCEval([s \in 1..Len(Traces) |-> CfgOf(Traces[s])])
Kinds == { <<Cfgs[s].n, Cfgs[s].quad, Cfgs[s].g.dealias>> : s \in 1..Len(Traces) }
Tabs == TLCEval([k \in Kinds |-> Tables(k[1], k[2], k[3])])
Tab(s) == Tabs[<<Cfgs[s].n, Cfgs[s].quad, Cfgs[s].g.dealias>>]
Kks == TLCEval([s \in 1..Len(Traces) |-> KsAll(Cfgs[s].g)])

V(x) == TLCEval(RArr(x))
Cut(f, m) == TLCEval([h \in 1..Len(f) |-> First(f[h], m)])
Big(x) == RMax(R(1), TMax(x))
\* modes whose values are compared
Sel(c, f) == LET ms == Modes(c.g.n) IN TLCEval([h \in 1..Len(f) |->
     IF OnNyquist(c.g.n, ms[h]) THEN TLCEval([m \in 1..Len(f[h]) |-> C0]) ELSE f[h]])
Same(c, want, got, scale) == LET a == Sel(c, want) b == Sel(c, got) IN
     TShape(a, b) /\ RLe(TDist(a, b), RMul(c.tol, scale))
Dim(c, T, i) == IF i = 1 /\ c.wall = "B" THEN T.n - 4 ELSE T.n - 2

ConvBad(s, e) == LET c == Cfgs[s] T == Tab(s)
      w == ChConv(c, T, Kks[s], V(e.u)) got == V(e.out) IN
   { x \in {"conv-1", "conv-2", "conv-3"} : LET i == CASE x = "conv-1" -> 1 [] x = "conv-2" -> 2 [] x = "conv-3" -> 3 IN
        ~ Same(c, w[i], Cut(got[i], T.n - 2), Big(w)) }
   \cup (IF e.u = e.after THEN {} ELSE {"conv-modifies-velocity"})

Source(s, e, T) == IF e.source = << >> THEN [m \in 1..T.n-2 |-> C0]
                   ELSE LET f == V(e.source) IN TLCEval([m \in 1..T.n-2 |-> << TLin(T.qd[m], f), R(0) >>])
\* the last step, or start of the run, before event k
RECURSIVE Earlier(_, _)
Earlier(s, k) == IF Ev(s, k - 1).op \in {"run", "step"} THEN k - 1 ELSE Earlier(s, k - 1)
Start(s, k) == Ev(s, IF before = 0 THEN run ELSE before)      \* the event whose result is the present state
StepBad(s, e) == LET c == Cfgs[s] T == Tab(s) kk == Kks[s] st == Ev(s, run)
      u0 == V(IF before = 0 THEN st.u ELSE Ev(s, before).u)
      \* the state before the present one
      q == IF before = 0 THEN 0 ELSE Earlier(s, before)
      upp == V(IF q = 0 THEN st.prev ELSE Ev(s, q).u)
      src == Source(s, st, T)
      p0 == IF ~ c.rb THEN << >> ELSE V(IF before = 0 THEN st.p ELSE Ev(s, before).p)
      ppp == IF ~ c.rb THEN << >> ELSE V(IF q = 0 THEN st.pprev ELSE Ev(s, q).p)
      r == IF c.rb THEN (IF c.scheme = "AB" THEN StepRBAB(c, T, kk, u0, upp, p0, ppp, src) ELSE StepRBRK3(c, T, kk, u0, p0, src))
           ELSE IF c.scheme = "AB" THEN StepAB(c, T, kk, u0, upp, src) ELSE StepRK3(c, T, kk, u0, src)
      got == V(e.u) IN
   { x \in {"step-1", "step-2", "step-3"} : LET i == CASE x = "step-1" -> 1 [] x = "step-2" -> 2 [] x = "step-3" -> 3 IN
        ~ Same(c, r.u[i], Cut(got[i], Dim(c, T, i)), Big(r.u)) }
   \cup (IF c.wall = "D" THEN {} ELSE IF Same(c, r.g, Cut(V(e.g), T.n - 2), Big(r.g)) THEN {} ELSE {"step-vorticity"})
   \cup (IF c.rb THEN (IF Same(c, r.p, V(e.p), Big(r.p)) THEN {} ELSE {"step-temperature"})
         ELSE IF c.wall = "B" THEN {} ELSE IF Same(c, r.p, V(e.p), Big(r.p)) THEN {} ELSE {"step-pressure"})

(* an accessor (or the results file) gives the field what of the velocity u; after is the solution then *)
GetBad(s, e) == LET c == Cfgs[s] T == Tab(s) kk == Kks[s] u == V(e.u) got == V(e.out)
      w == CASE e.what = "temperature" -> << OnMesh(c, T, FromR(T, u)) >>
             [] e.what \in {"velocity", "stored", "set"} -> GetVelocity(c, T, u)
             [] e.what = "curl" -> GetCurl(c, T, kk, u)
             [] e.what = "divergence" -> GetDivergence(c, T, kk, u)
             [] e.what = "gradient" -> GetGradient(c, T, kk, u) IN
   (IF TShape(w, got) /\ RLe(TDist(w, got), RMul(c.tol, RAdd(R(1), TMax(w)))) THEN {} ELSE {"get-" \o e.what})
   \cup (IF e.before = e.after THEN {} ELSE {"get-" \o e.what \o "-modifies-state"})
(* setting the velocity from its values gives its coefficients back *)
SetBad(s, e) == LET c == Cfgs[s] T == Tab(s) want == V(e.u) got == V(e.out) IN
   { x \in {"set-1", "set-2", "set-3"} : LET i == CASE x = "set-1" -> 1 [] x = "set-2" -> 2 [] x = "set-3" -> 3 IN
        ~ Same(c, Cut(want[i], Dim(c, T, i)), Cut(got[i], Dim(c, T, i)), Big(want)) }

(* the pressure of u and the earlier u0, up to a constant *)
PressureBad(s, e) == LET c == Cfgs[s] T == Tab(s)
      w == GetPressure(c, T, Kks[s], V(e.u), V(e.u0)) got == V(e.out)
      Less(p, x) == TLCEval([j \in 1..Len(p) |-> TLCEval([q \in 1..Len(p[j]) |-> RSub(p[j][q], x)])]) IN
   (IF TShape(w, got) /\ RLe(TDist(Less(w, w[1][1]), Less(got, got[1][1])), RMul(c.tol, RAdd(R(1), TMax(w)))) THEN {} ELSE {"pressure"})
   \cup (IF e.before = e.after THEN {} ELSE {"pressure-modifies-state"})

Bad(s, e) == CASE e.op = "conv" -> ConvBad(s, e)
               [] e.op = "pressure" -> PressureBad(s, e)
               [] e.op = "step" -> StepBad(s, e)
               [] e.op = "get" -> GetBad(s, e)
               [] e.op = "set" -> SetBad(s, e)
               [] e.op = "raised" -> {"raised-" \o e.what}
               [] OTHER -> {}

Init == /\ sc \in 1..Len(Traces)
        /\ pos = 0 /\ run = 0 /\ before = 0 /\ bad = {}
Next == /\ pos < Len(Traces[sc].events)
        /\ pos' = pos + 1
        /\ LET e == Ev(sc, pos + 1) IN
           /\ run' = IF e.op = "run" THEN pos + 1 ELSE run
           /\ before' = IF e.op = "run" THEN 0 ELSE IF e.op = "step" THEN pos + 1 ELSE before
           /\ bad' = Bad(sc, e)
        /\ UNCHANGED sc
Spec == Init /\ [][Next]_vars
\* a state reached by an event that is not a step of the specification is reported
Conforms == bad = {} \/ PrintT("MISMATCH " \o ToString(<< sc, pos, bad >>))
=============================================================================
