---------------------------- MODULE ConfigTrace ----------------------------
(***************************************************************************)
(* Recorded histories of config.update, get_solver, assignments, attempted *)
(* modifications in place and readings are behaviours of Config, with the  *)
(* documented options of spectralDNS.                                      *)
(***************************************************************************)
EXTENDS Config, Rat, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, pos, st, bad
vars == << sc, pos, st, bad >>
Ev(s, k) == Traces[s].events[k]

(* the documented options: name, kind, default, choices *)
O(o, k, d) == [o |-> o, k |-> k, d |-> d, c |-> {}]
Ch(o, d, c) == [o |-> o, k |-> "str", d |-> d, c |-> c]
Pi == [a |-> "2", pi |-> 1, b |-> "1"]
Two == [a |-> "2", pi |-> 0, b |-> "1"]
Common == {
   Ch("precision", "double", {"single", "double"}), Ch("optimization", "", {"cython", "weave", "numba", "pythran"}),
   O("make_profile", "num", "0"), O("dt", "coef", "0.01"), O("T", "num", "0.1"), O("write_result", "num", "1e8"),
   O("checkpoint", "num", "1e8"), O("nu", "coef", "0.000625"), O("t", "num", "0"), O("tstep", "num", "0"),
   Ch("filemode", "w", {"w", "r", "a"}), Ch("dealias", "2/3-rule", {"2/3-rule", "3/2-rule", "None"}),
   Ch("decomposition", "slab", {"slab", "pencil"}), O("ntol", "num", "7"), O("threads", "num", "1"),
   O("h5filename", "str", "results"), O("verbose", "bool", "True"), O("mask_nyquist", "bool", "True") }
Explicit == {"RK4", "ForwardEuler", "AB2", "BS5_adaptive", "BS5_fixed"}
OfMesh(m) ==
   CASE m = "triplyperiodic" -> { Ch("convection", "Vortex", {"Standard", "Divergence", "Skewed", "Vortex"}),
            O("L", "L", << Pi, Pi, Pi >>), O("M", "M", << "6", "6", "6" >>), O("TOL", "num", "1e-6"), Ch("integrator", "RK4", Explicit) }
     [] m = "doublyperiodic" -> { Ch("convection", "Vortex", {"Vortex"}),
            O("L", "L", << Pi, Pi >>), O("M", "M", << "6", "6" >>), O("TOL", "num", "1e-6"), Ch("integrator", "RK4", Explicit) }
     [] OTHER -> { Ch("convection", "Vortex", {"Standard", "Divergence", "Skew", "Vortex"}),
            O("L", "L", << Two, Pi, Pi >>), O("M", "M", << "6", "6", "6" >>),
            Ch("Dquad", "GC", {"GC", "GL"}), Ch("Bquad", "GC", {"GC", "GL"}), Ch("Nquad", "GC", {"GC", "GL"}) }
Solvers(m) == CASE m = "triplyperiodic" -> {"NS", "VV", "MHD"} [] m = "doublyperiodic" -> {"NS2D", "Bq2D"}
                [] OTHER -> {"KMM", "KMMr", "KMMRK3", "KMM_RB", "KMMRK3_RB", "Coupled", "CoupledRK3"}
OfSolver(s) == CASE s = "MHD" -> { O("eta", "coef", "0.01") }
                 [] s = "Bq2D" -> { O("Ri", "coef", "0.1"), O("Pr", "coef", "1.0") }
                 [] s \in {"KMM", "KMMr", "KMM_RB", "Coupled", "CoupledRK3"} -> { Ch("integrator", "implicit", {"implicit"}) }
                 [] s \in {"KMMRK3", "KMMRK3_RB"} -> { Ch("integrator", "implicitRK3", {"implicitRK3"}) }
                 [] OTHER -> {}
Options(m, s) == Common \cup OfMesh(m) \cup OfSolver(s)
Names(m, s) == { x.o : x \in Options(m, s) }
Opt(m, s, o) == CHOOSE x \in Options(m, s) : x.o = o
Defaults(m, s) == [o \in Names(m, s) |-> Opt(m, s, o).d]

(* is an observed value the value of a token *)
PiR == R("0x1.921fb54442d18p+1")
Near(a, b, rel) == RLe(RAbs(RSub(a, b)), RMul(rel, RAbs(b)))
Tight == R("1e-15")
LVal(x) == RMul(RDiv(R(x.a), R(x.b)), IF x.pi = 1 THEN PiR ELSE R(1))
Prec == st.par["precision"]
Is(kind, tok, got) ==
   CASE kind \in {"str", "bool"} -> got.ty = kind /\ got.v = tok
     [] kind = "num" -> got.ty = "num" /\ Near(R(got.v), R(tok), Tight)
     [] kind = "coef" -> got.ty = "num" /\ (IF Prec = "single" THEN got.fl = "float32" /\ Near(R(got.v), R(tok), R("6e-8"))
                                            ELSE got.fl \in {"float64", "float"} /\ Near(R(got.v), R(tok), Tight))
     [] kind = "M" -> got.ty = "arr" /\ Len(got.v) = Len(tok) /\ \A i \in 1..Len(tok) : R(got.v[i]) = R(tok[i])
     [] kind = "L" -> got.ty = "arr" /\ Len(got.v) = Len(tok) /\ \A i \in 1..Len(tok) : Near(R(got.v[i]), LVal(tok[i]), Tight)
     [] OTHER -> FALSE
\* tokens of M are decimal strings; powers need integers
Dec(s) == CHOOSE i \in 0..64 : ToString(i) = s
MeshN == IF "N" \in DOMAIN st.par THEN [i \in DOMAIN st.par["N"] |-> R(st.par["N"][i])]
         ELSE [i \in DOMAIN st.par["M"] |-> RPow(R(2), Dec(st.par["M"][i]))]
ArrIs(got, want, rel) == got.ty = "arr" /\ Len(got.v) = Len(want) /\ \A i \in 1..Len(want) : Near(R(got.v[i]), want[i], rel)
Fits == Len(st.par["L"]) = Len(MeshN)
Good(o, got) ==
   IF o = "N" THEN ArrIs(got, MeshN, R(0))
   ELSE IF o = "dx" THEN Fits => ArrIs(got, [i \in DOMAIN MeshN |-> RDiv(LVal(st.par["L"][i]), MeshN[i])], Tight)
   ELSE Is(Opt(st.mesh, st.solver, o).k, st.par[o], got)
ReadBad(e) == IF ~ st.known THEN {} ELSE
   LET S == DOMAIN e.vals \cap (Names(st.mesh, st.solver) \cup {"N", "dx"}) IN
   { "value-" \o o : o \in { x \in S : ~ Good(x, e.vals[x].attr) } }
   \cup { "key-differs-from-attribute-" \o o : o \in { x \in S : e.vals[x].attr # e.vals[x].key } }
   \cup { "missing-" \o o : o \in IF e.all THEN (Names(st.mesh, st.solver) \cup {"N", "dx"}) \ DOMAIN e.vals ELSE {} }

(* is a request one to refuse *)
Wrong(e) == \/ e.solver \notin Solvers(e.mesh)
            \/ \E o \in DOMAIN e.cli : o \notin Names(e.mesh, e.solver)
            \/ \E o \in DOMAIN e.cli : Opt(e.mesh, e.solver, o).c # {} /\ e.cli[o] \notin Opt(e.mesh, e.solver, o).c
            \/ e.malformed
GetBad(e, s2) ==
   IF Wrong(e) THEN (IF e.ok THEN {"accepts-wrong-request"} ELSE {})
   ELSE IF ~ e.ok THEN {"refuses-right-request"}
   ELSE (IF e.ret = e.solver THEN {} ELSE {"wrong-solver"})
        \cup (IF e.linked THEN {} ELSE {"config-solver"})
        \cup { "callback-" \o c : c \in { x \in {"update", "regression_test", "additional_callback"} :
                   LET want == IF x \in DOMAIN s2.cb[e.solver] THEN s2.cb[e.solver][x] ELSE "" IN e.cb[x] # want } }
After(e) ==
   CASE e.op = "update" -> Updated(st, e.mesh, e.new)
     [] e.op = "get" -> IF Wrong(e) THEN Refused(st, ~ e.early)
                        ELSE Got(st, e.mesh, e.solver, Defaults(e.mesh, e.solver), e.cli, e.cbs)
     [] e.op = "set" -> Assigned(st, e.o, e.v)
     [] OTHER -> st
Init == sc \in 1..Len(Traces) /\ pos = 0 /\ st = Start /\ bad = {}
Next == /\ pos < Len(Traces[sc].events)
        /\ pos' = pos + 1 /\ UNCHANGED sc
        /\ LET e == Ev(sc, pos + 1) IN
           /\ st' = After(e)
           /\ bad' = CASE e.op = "get" -> GetBad(e, After(e)) [] e.op = "read" -> ReadBad(e)
                       [] e.op = "raised" -> {"raised-" \o e.what} [] OTHER -> {}
Spec == Init /\ [][Next]_vars
Conforms == bad = {} \/ PrintT("MISMATCH " \o ToString(<< sc, pos, bad >>))
=============================================================================
