---------------------------- MODULE TimerModel -----------------------------
(***************************************************************************)
(* All runs of a few steps with all small durations on every process; the  *)
(* report must be what the whole history says.  Runs are printed as        *)
(* scripts.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NP, Steps, MaxD, Dump
ILE(a, b) == a <= b
T == INSTANCE Timer WITH LE <- ILE
VARIABLES st, hist, opts
vars == << st, hist, opts >>
Init == st = T!Start(NP) /\ hist = << >> /\ opts \in [verbose : BOOLEAN, profile : BOOLEAN]
Next == /\ Len(hist) < Steps
        /\ \E d \in [1..NP -> 1..MaxD] : st' = T!Step(st, d) /\ hist' = Append(hist, d)
        /\ UNCHANGED opts
Spec == Init /\ [][Next]_vars
All(i) == { hist[k][i] : k \in 1..Len(hist) }
Least(X) == CHOOSE x \in X : \A y \in X : x <= y
Most(X) == CHOOSE x \in X : \A y \in X : y <= x
Reported == hist # << >> => LET r == T!Report(st) IN
   /\ r.fastest = << Least(UNION { All(i) : i \in 1..NP }), Least({ Most(All(i)) : i \in 1..NP }) >>
   /\ r.slowest = << Most({ Least(All(i)) : i \in 1..NP }), Most(UNION { All(i) : i \in 1..NP }) >>
Dumped == Dump => PrintT(<< "SCRIPT", ToJson([verbose |-> opts.verbose, profile |-> opts.profile, steps |-> hist]) >>)
=============================================================================
