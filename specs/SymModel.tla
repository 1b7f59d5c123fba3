------------------------------ MODULE SymModel ------------------------------
(***************************************************************************)
(* The right-hand sides of module Flow commute with the transformations of *)
(* module Symmetry, exactly: every solver and form, states of three        *)
(* solenoidal modes, the generators of the group; and the transformations  *)
(* act as a group on fields.                                               *)
(***************************************************************************)
EXTENDS ConserveModel, Symmetry
CONSTANT Few           \* a few of the states only
VARIABLE tr
Id == [perm |-> <<1, 2, 3>>, sgn |-> <<1, 1, 1>>, quarter |-> <<0, 0, 0>>, scale |-> "1"]
Generators == { [Id EXCEPT !.sgn[i] = -1] : i \in 1..3 } \cup { [Id EXCEPT !.quarter[i] = 1] : i \in 1..3 }
              \cup { [Id EXCEPT !.scale = "2"] } \cup { [Id EXCEPT !.perm = p] : p \in { <<2, 1, 3>>, <<3, 2, 1>>, <<2, 3, 1>> } }
              \cup { [perm |-> <<3, 2, 1>>, sgn |-> <<-1, 1, 1>>, quarter |-> <<3, 0, 1>>, scale |-> "1/2"] }
\* the plane has no second direction; gravity acts along the third
Ours(t) == IF ~ Is2D THEN TRUE ELSE /\ t.perm \in { <<1, 2, 3>>, <<3, 2, 1>> } /\ t.sgn[2] = 1 /\ t.quarter[2] = 0
                                    /\ solver = "Bq2D" => t.perm = <<1, 2, 3>>
Kind(a, ax, pw, fl, st) == [axis |-> a, axial |-> ax, power |-> pw, flip |-> fl, set |-> st]
Kinds == CASE solver = "MHD" -> << Kind(1, FALSE, 1, 0, 1), Kind(2, FALSE, 1, 0, 1), Kind(3, FALSE, 1, 0, 1), Kind(1, FALSE, 1, 0, 2), Kind(2, FALSE, 1, 0, 2), Kind(3, FALSE, 1, 0, 2) >>
           [] solver = "NS2D" -> << Kind(1, FALSE, 1, 0, 1), Kind(3, FALSE, 1, 0, 1) >>
           [] solver = "Bq2D" -> << Kind(1, FALSE, 1, 0, 1), Kind(3, FALSE, 1, 0, 1), Kind(0, FALSE, 2, 3, 1) >>
           [] OTHER -> << Kind(1, solver = "VV", 1, 0, 1), Kind(2, solver = "VV", 1, 0, 1), Kind(3, solver = "VV", 1, 0, 1) >>
Perm(t, s) == [i \in 1..3 |-> s[t.perm[i]]]
G2(t) == [Grid EXCEPT !.n = Perm(t, Grid.n), !.ks = Perm(t, Grid.ks)]
On(t, n, u) == TLCEval([j \in 1..Len(u) |-> Image(Kinds, t, n, Perm(t, n), TLCEval([i \in 1..Len(u) |-> << u[i] >>]))[j][1]])
SInit == Init /\ tr = Id
SNext == \/ Next /\ UNCHANGED tr /\ (vary' # << >> => vary' \in IF Few THEN { <<0, 1, 0>> } ELSE { <<0, 1, 0>>, <<1, 0, 1>> })
            /\ (Few => pick' \in { {1, 3, 5}, {2, 4, 6}, {1, 2, 7}, {3, 6, 7} })
         \/ vary # << >> /\ tr = Id /\ tr' \in Generators /\ Ours(tr') /\ UNCHANGED vars
SSpec == SInit /\ [][SNext]_<< vars, tr >>
Commutes == (Chosen /\ tr # Id) =>
    LET u == State s == R(tr.scale)
        p2 == [Par EXCEPT !.nu = RMul(s, Par.nu), !.eta = RMul(s, Par.eta)]
        a == Rhs([Cfg EXCEPT !.g = G2(tr)], p2, On(tr, Grid.n, u), << >>).out
        b == On(tr, Grid.n, Rhs(Cfg, Par, u, << >>).out) IN
    TDist(a, TLCEval([i \in 1..Len(b) |-> FScale(s, b[i])])) = R(0)
\* undoing: mirrors twice, quarters four times, an exchange and its inverse give the field back
Undo(t) == LET inv == [i \in 1..3 |-> CHOOSE j \in 1..3 : t.perm[j] = i] IN
    [perm |-> inv, sgn |-> [i \in 1..3 |-> t.sgn[inv[i]]], scale |-> IF t.scale = "2" THEN "1/2" ELSE IF t.scale = "1/2" THEN "2" ELSE "1",
     quarter |-> [i \in 1..3 |-> (-1 * t.sgn[inv[i]] * t.quarter[inv[i]]) % 4]]
Undone == (Chosen /\ tr # Id) => LET u == State n == Grid.n m == Perm(tr, n) k == Kinds
             ok(f) == TLCEval([i \in 1..Len(f) |-> << f[i] >>])
             v == Image(k, Undo(tr), m, n, Image(k, tr, n, m, ok(u))) IN
          TDist(v, ok(u)) = R(0)
\* every transformation changes something of these states (unless it is the identity on this family)
Somewhere == (Chosen /\ tr.scale = "2") => TDist(On(tr, Grid.n, State), State) # R(0)
=============================================================================
