--------------------------- MODULE ConserveModel ----------------------------
(***************************************************************************)
(* The specification of the right-hand sides (module Flow) conserves what  *)
(* module Conserve says, exactly: every state made of three solenoidal     *)
(* modes of a family, for every solver and form, in exact arithmetic.      *)
(***************************************************************************)
EXTENDS Conserve, FiniteSets
VARIABLES solver, form, pick, vary
vars == << solver, form, pick, vary >>
Is2D == solver \in {"NS2D", "Bq2D"}
Grid == IF Is2D THEN [n |-> <<7, 1, 7>>, ks |-> << R(1), R(1), R(2) >>, dealias |-> "3/2-rule"]
        ELSE [n |-> <<5, 5, 5>>, ks |-> << R(1), R(2), R("1/2") >>, dealias |-> "3/2-rule"]
Cfg == [solver |-> solver, form |-> form, mask |-> FALSE, exact |-> TRUE, g |-> Grid]
Par == [nu |-> R("1/4"), eta |-> R("3/2"), Ri |-> R("2/3"), Pr |-> R("5/7")]
Family == IF Is2D THEN << <<1,0,0>>, <<0,0,1>>, <<1,0,1>>, <<2,0,1>>, <<-1,0,2>>, <<3,0,0>>, <<-2,0,3>> >>
          ELSE << <<1,0,0>>, <<0,1,1>>, <<1,1,1>>, <<1,-1,0>>, <<-1,2,1>>, <<2,0,2>>, <<0,-2,1>> >>
X(a, b) == << RSub(RMul(a[2], b[3]), RMul(a[3], b[2])), RSub(RMul(a[3], b[1]), RMul(a[1], b[3])), RSub(RMul(a[1], b[2]), RMul(a[2], b[1])) >>
E3(i) == [j \in 1..3 |-> IF j = i THEN R(1) ELSE R(0)]
\* complex amplitude orthogonal to the scaled wave vector
Amp(k, v) == LET kk == Ks(Grid, k)
                 a == X(kk, IF Is2D THEN E3(2) ELSE E3(1 + (v % 3))) b == X(kk, IF Is2D THEN E3(2) ELSE E3(1 + ((v + 1) % 3)))
                 s == R(1 + v) t == R(2 - v) IN
             [i \in 1..3 |-> << RMul(s, a[i]), RMul(t, b[i]) >>]
\* the field with the given modes: seq of <<k, amplitude>>
Build(i, l) == LET ms == Modes(Grid.n) IN TLCEval([h \in 1..Len(ms) |->
   CSum([q \in 1..Len(l) |-> IF l[q][1] = ms[h] THEN l[q][2][i] ELSE IF Neg(l[q][1]) = ms[h] THEN Conj(l[q][2][i]) ELSE C0])])
List(off) == LET s == SetToSeq(pick) IN [q \in 1..Len(s) |-> << Family[s[q]], Amp(Family[s[q]], (vary[q] + off) % 3) >>]
Vel(off) == LET l == List(off) IN TLCEval(<< Build(1, l), Build(2, l), Build(3, l) >>)
Rho == LET l == List(1) IN Build(1, [q \in 1..Len(l) |-> << l[q][1], << << R(q), R(vary[1] - q) >> >> >>])
State == CASE solver = "MHD" -> Vel(0) \o Vel(1)
           [] solver = "NS2D" -> LET v == Vel(0) IN << v[1], v[3] >>
           [] solver = "Bq2D" -> LET v == Vel(0) IN << v[1], v[3], Rho >>
           [] OTHER -> Vel(0)
Choice == \/ solver' = "NS" /\ form' \in {"Vortex", "Standard", "Divergence", "Skewed"}
          \/ solver' = "MHD" /\ form' = "Divergence"
          \/ solver' \in {"VV", "NS2D", "Bq2D"} /\ form' = "Vortex"
Init == solver = "" /\ form = "" /\ pick = {} /\ vary = << >>
\* in two steps, so that the workers of TLC share the states
Next == \/ solver = "" /\ Choice /\ pick' \in { s \in SUBSET (1..7) : Cardinality(s) = 3 } /\ UNCHANGED vary
        \/ solver # "" /\ vary = << >> /\ vary' \in [1..3 -> 0..1] /\ UNCHANGED << solver, form, pick >>
Spec == Init /\ [][Next]_vars
Chosen == vary # << >>
Conserves == Chosen => LET u == State IN Broken(Cfg, Par, u, Rhs(Cfg, Par, u, << >>).out, R(0)) = {}
StateSolenoidal == Chosen => Solenoidal(Cfg, State, R(0))
NotTrivial == Chosen => TMax(State) # R(0)
=============================================================================
