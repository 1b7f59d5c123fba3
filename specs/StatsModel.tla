----------------------------- MODULE StatsModel -----------------------------
(***************************************************************************)
(* All histories of a few operations on the statistics, with the sampled   *)
(* values as history: averages times number is the sum of exactly the      *)
(* samples since the collection began, across continued runs.  Histories   *)
(* are printed as scripts.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS Len0, Dump
IAdd(a, b) == a + b
S == INSTANCE Statistics WITH Zero <- 0, Add <- IAdd
VARIABLES st, hist, took, kept
vars == << st, hist, took, kept >>
Init == st = S!Begin /\ hist = << >> /\ took = << >> /\ kept = << >>
Log(op) == hist' = Append(hist, op)
Do == \/ \E full \in BOOLEAN : LET x == 2^Len(hist) IN /\ st' = S!Sample(st, x)
                                              /\ took' = Append(took, x) /\ kept' = << Append(took, x) >>
                                              /\ Log(IF full THEN "sample4" ELSE "sample")
      \/ st' = S!Reset(st) /\ took' = << >> /\ UNCHANGED kept /\ Log("reset")
      \/ st' = S!Fresh(st) /\ took' = << >> /\ UNCHANGED kept /\ Log("fresh")
      \/ st.file # << >> /\ st' = S!Reopen(st) /\ took' = kept[1] /\ UNCHANGED kept /\ Log("reopen")
Next == Len(hist) < Len0 /\ Do
Spec == Init /\ [][Next]_vars
Sum(q) == FoldLeft(IAdd, 0, q)
Counted == st.mem = [ n |-> Len(took), s |-> Sum(took) ]
Stored == /\ (st.file = << >>) = (kept = << >>)
          /\ kept # << >> => st.file[1] = [ n |-> Len(kept[1]), s |-> Sum(kept[1]) ]
NeverEmpty == st.file # << >> => st.file[1].n > 0
Dumped == (Dump /\ Len(hist) = Len0 /\ \E i \in 1..Len0 : hist[i] \in {"sample", "sample4"}) => PrintT(<< "SCRIPT", ToJson(hist) >>)
=============================================================================
