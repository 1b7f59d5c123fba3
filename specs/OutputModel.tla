---------------------------- MODULE OutputModel ----------------------------
(***************************************************************************)
(* All histories of up to two runs over the same files, for every result   *)
(* and checkpoint interval, file mode, starting step and number of steps.  *)
(* Complete histories are printed as scripts and replayed into the code.   *)
(***************************************************************************)
EXTENDS Output, Json
CONSTANTS Intervals, MaxRuns, MaxSteps, Starts, Dump
VARIABLES st, run, runs, n, sol, log
vars == << st, run, runs, n, sol, log >>
\* log: every (step, solution, result due, checkpoint due) since the files were last started afresh
NoRun == [ mode |-> "none" ]
Init == st = Fresh /\ run = NoRun /\ runs = << >> /\ n = 0 /\ sol = 0 /\ log = << >>
StartRun == /\ run = NoRun /\ Len(runs) < MaxRuns
            /\ \E mode \in {"w", "a"}, w \in Intervals, c \in Intervals, k \in 0..MaxSteps, s \in Starts :
                 /\ (runs = << >> => mode = "w")
                 /\ run' = [mode |-> mode, w |-> w, c |-> c, steps |-> k, start |-> IF s = 99 THEN n ELSE s]
                 /\ n' = IF s = 99 THEN n ELSE s
            /\ st' = Begin(st)
            /\ runs' = Append(runs, run')
            /\ UNCHANGED << sol, log >>
Left == run.steps - (n - run.start)
Step == /\ run # NoRun /\ Left > 0
        /\ n' = n + 1 /\ sol' = sol + 1
        /\ st' = Hook(st, run.mode, run.w, run.c, n + 1, n + 1, sol + 1, sol + 1)
        /\ log' = Append(IF ~ st.open /\ run.mode = "w" THEN << >> ELSE log,
                         [n |-> n + 1, sol |-> sol + 1, w |-> (n + 1) % run.w = 0, c |-> (n + 1) % run.c = 0])
        /\ UNCHANGED << run, runs >>
EndRun == /\ run # NoRun /\ Left = 0
          /\ run' = NoRun
          /\ UNCHANGED << st, runs, n, sol, log >>
Next == StartRun \/ Step \/ EndRun
Spec == Init /\ [][Next]_vars
Last(P(_)) == LET I == {i \in 1..Len(log) : P(log[i])} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
(* every stored result is that of the last completed step with its number; nothing is missing or extra *)
Results == st.open => LET S == {log[i].n : i \in {i \in 1..Len(log) : log[i].w}} IN
              /\ DOMAIN st.res = S
              /\ \A k \in S : st.res[k] = log[Last(LAMBDA e : e.w /\ e.n = k)].sol
(* the checkpoint is the latest solution whose step was due *)
Latest == st.open => LET i == Last(LAMBDA e : e.c) IN
              IF i = 0 THEN st.cp = << >> ELSE st.cp = << [step |-> log[i].n, t |-> log[i].n, val |-> log[i].sol] >>
Dumped == (Dump /\ run = NoRun /\ runs # << >>) => PrintT(<< "SCRIPT", ToJson(runs) >>)
=============================================================================
