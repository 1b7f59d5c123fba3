------------------------------- MODULE Timer -------------------------------
(***************************************************************************)
(* The step timers of all processes.  d[i] is the duration of a step on    *)
(* process i; a timer keeps the fastest and slowest of the steps that were *)
(* completed, and the report of process 0 reduces them over the processes. *)
(* Durations are of any type with the order LE.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT LE(_, _)
Lo(a, b) == IF LE(a, b) THEN a ELSE b
Hi(a, b) == IF LE(a, b) THEN b ELSE a
RECURSIVE LoAll(_), HiAll(_)
LoAll(s) == IF Len(s) = 1 THEN s[1] ELSE Lo(s[1], LoAll(Tail(s)))
HiAll(s) == IF Len(s) = 1 THEN s[1] ELSE Hi(s[1], HiAll(Tail(s)))
Start(np) == [ n |-> 0, fast |-> [i \in 1..np |-> << >>], slow |-> [i \in 1..np |-> << >>] ]
Step(st, d) == [ n |-> st.n + 1,
                 fast |-> [i \in 1..Len(d) |-> << IF st.fast[i] = << >> THEN d[i] ELSE Lo(st.fast[i][1], d[i]) >>],
                 slow |-> [i \in 1..Len(d) |-> << IF st.slow[i] = << >> THEN d[i] ELSE Hi(st.slow[i][1], d[i]) >>] ]
F(st) == [i \in DOMAIN st.fast |-> st.fast[i][1]]
S(st) == [i \in DOMAIN st.slow |-> st.slow[i][1]]
Report(st) == [ fastest |-> << LoAll(F(st)), LoAll(S(st)) >>, slowest |-> << HiAll(F(st)), HiAll(S(st)) >> ]
=============================================================================
