----------------------------- MODULE Statistics -----------------------------
(***************************************************************************)
(* The statistics a channel run collects: the sums of the samples taken    *)
(* since the collection began, and their number.  Every sample stores the  *)
(* averages; a later run may continue from the stored ones.  Samples are   *)
(* of any type with a zero and an addition.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Zero, Add(_, _)
Empty == [ n |-> 0, s |-> Zero ]
Begin == [ mem |-> Empty, file |-> << >> ]
Taken(m, x) == [ n |-> m.n + 1, s |-> Add(m.s, x) ]
Sample(st, x) == LET m == Taken(st.mem, x) IN [ mem |-> m, file |-> << m >> ]
Reset(st)  == [ st EXCEPT !.mem = Empty ]              \* what is stored stays until the next sample
Fresh(st)  == [ st EXCEPT !.mem = Empty ]              \* a new collection
Reopen(st) == [ st EXCEPT !.mem = st.file[1] ]         \* continued from the stored averages
=============================================================================
