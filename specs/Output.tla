------------------------------- MODULE Output -------------------------------
(***************************************************************************)
(* What the output files hold.  A history is a sequence of runs that use   *)
(* the same file name; the first output hook of a run opens the files in   *)
(* the run's file mode ('w' starts them afresh, 'a' continues them).       *)
(*   res    results file: step -> value stored under that step             *)
(*   cp     checkpoint: << >> or [step, t, val] of the latest checkpoint   *)
(*   last   the solution of the previous step (kept by two-step schemes)   *)
(* Values are whatever identifies a solution (a model number in            *)
(* OutputModel, digests of the stored arrays in OutputTrace).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoRes == [x \in {} |-> 0]
Fresh == [ res |-> NoRes, cp |-> << >>, open |-> FALSE ]

Begin(st) == [st EXCEPT !.open = FALSE]
\* a run's first hook opens the files
Opened(st, mode) == IF st.open THEN st
                    ELSE IF mode = "w" THEN [Fresh EXCEPT !.open = TRUE] ELSE [st EXCEPT !.open = TRUE]
ResultDue(w, n) == n % w = 0
CheckDue(c, n) == n % c = 0
\* the files after the output hook of step n at time t with solution val
Hook(st, mode, w, c, n, t, val, phys) ==
   LET o == Opened(st, mode)
       r == IF ResultDue(w, n) THEN (n :> phys) @@ o.res ELSE o.res
   IN [o EXCEPT !.res = r, !.cp = IF CheckDue(c, n) THEN << [step |-> n, t |-> t, val |-> val] >> ELSE @]
=============================================================================
