------------------------------ MODULE Kernels ------------------------------
(***************************************************************************)
(* The pointwise routines that have accelerated versions.  A call is       *)
(* recorded as the arrays it was given (vectors as tuples of components,   *)
(* every array flattened, wavenumbers broadcast to the full mesh) and what *)
(* it left behind; the values are complex, real ones with imaginary part 0.*)
(* Each definition is what the routine returns at one point of the mesh.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Rat
Z == << R(0), R(0) >>
MulI(z) == << RNeg(z[2]), z[1] >>
CNeg(a) == << RNeg(a[1]), RNeg(a[2]) >>
RECURSIVE CAddAll(_)
CAddAll(s) == IF s = << >> THEN Z ELSE CAdd(Head(s), CAddAll(Tail(s)))
Cross(a, b) == << CSub(CMul(a[2], b[3]), CMul(a[3], b[2])), CSub(CMul(a[3], b[1]), CMul(a[1], b[3])), CSub(CMul(a[1], b[2]), CMul(a[2], b[1])) >>
Cross2D(a, b) == << CSub(CMul(a[1], b[2]), CMul(a[2], b[1])) >>
Vec(f(_), n) == [i \in 1..n |-> f(i)]

\* x: the values at one point, by argument name; s: the scalars
Pressure(x, d) == CAddAll([i \in 1..d |-> CMul(x.rhs[i], x.kok[i])])
At(name, x, s) ==
   CASE name = "cross1"    -> Cross(x.a, x.b)
     [] name = "cross1_2D" -> Cross2D(x.a, x.b)
     [] name = "cross2"    -> LET c == Cross(x.a, x.b) IN << MulI(c[1]), MulI(c[2]), MulI(c[3]) >>
     [] name = "cross2_2D" -> << MulI(Cross2D(x.a, x.b)[1]) >>
     [] name = "pressure_NS" ->          \* outputs: the components of rhs, then the pressure
          LET d == Len(x.rhs) p == Pressure(x, d) IN
          [i \in 1..d+1 |-> IF i = d + 1 THEN p
             ELSE CSub(CSub(x.rhs[i], CMul(p, x.k[i])), CScale(s.nu, CMul(x.ksq[1], x.u[i])))]
     [] name = "pressure_MHD" ->
          LET p == Pressure(x, 3) IN
          [i \in 1..7 |-> IF i = 7 THEN p
             ELSE IF i <= 3 THEN CSub(CSub(x.rhs[i], CMul(p, x.k[i])), CScale(s.nu, CMul(x.ksq[1], x.u[i])))
             ELSE CSub(x.rhs[i], CScale(s.eta, CMul(x.ksq[1], x.u[i])))]
     [] name = "pressure_Bq2D" ->
          LET p == CSub(Pressure(x, 2), CScale(s.Ri, CMul(x.u[3], x.kok[2]))) IN
          << CSub(CSub(x.rhs[1], CMul(p, x.k[1])), CScale(s.nu, CMul(x.ksq[1], x.u[1]))),
             CSub(CSub(CSub(x.rhs[2], CMul(p, x.k[2])), CScale(s.nu, CMul(x.ksq[1], x.u[2]))), CScale(s.Ri, x.u[3])),
             CSub(x.rhs[3], CScale(RDiv(s.nu, s.Pr), CMul(x.ksq[1], x.u[3]))),
             p >>
     [] name = "linear_VV" -> [i \in 1..3 |-> CAdd(CSub(x.rhs[i], CScale(s.nu, CMul(x.ksq[1], x.u[i]))), x.source[i])]
     [] name = "mult_K1j" -> << MulI(CMul(x.k[3], x.a[1])), CNeg(MulI(CMul(x.k[2], x.a[1]))) >>
     [] name = "assembleAB" -> [i \in 1..3 |-> CSub(CScale(RDiv(R(3), R(2)), x.h[i]), CScale(RDiv(R(1), R(2)), x.h1[i]))]
     [] name = "compute_vw" -> << x.u[1],
             CNeg(MulI(CSub(CMul(x.kok[1], x.f[1]), CMul(x.kok[2], x.g[1])))),
             CNeg(MulI(CAdd(CMul(x.kok[2], x.f[1]), CMul(x.kok[1], x.g[1])))) >>

Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, pos, bad
vars == << sc, pos, bad >>
CallBad(s, e) ==
   LET a == TLCEval([n \in DOMAIN e.args |-> RArr(e.args[n])])
       out == TLCEval(RArr(e.out))
       sca == [n \in DOMAIN e.sc |-> R(e.sc[n])]
       X(m) == [n \in DOMAIN a |-> [i \in 1..Len(a[n]) |-> a[n][i][m]]]
       tol == RMul(R(Traces[s].cfg.tol), RAdd(R(1), TMax(out)))
       ok(m) == LET w == At(e.name, X(m), sca) IN
                  /\ Len(w) = Len(out)
                  /\ \A i \in 1..Len(w) : CClose(w[i], out[i][m], tol)
   IN (IF \A m \in 1..Len(out[1]) : ok(m) THEN {} ELSE {"value-of-" \o e.name})
      \cup (IF e.untouched THEN {} ELSE {"inputs-modified-by-" \o e.name})
      \cup (IF e.inplace THEN {} ELSE {"result-not-in-output-of-" \o e.name})
Init == sc \in 1..Len(Traces) /\ pos = 0 /\ bad = {}
Next == /\ pos < Len(Traces[sc].events)
        /\ pos' = pos + 1 /\ UNCHANGED sc
        /\ LET e == Traces[sc].events[pos + 1] IN
           bad' = IF e.op = "call" THEN CallBad(sc, e) ELSE {"raised-" \o e.what}
Spec == Init /\ [][Next]_vars
\* a state reached by an event that is not a step of the specification is reported
Conforms == bad = {} \/ PrintT("MISMATCH " \o ToString(<< sc, pos, bad >>))
=============================================================================
