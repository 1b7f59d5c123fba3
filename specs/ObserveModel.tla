---------------------------- MODULE ObserveModel ----------------------------
(***************************************************************************)
(* All schedules of questions between the steps of a short run, next to    *)
(* the run that nobody looks at.  A schedule gives, for each step, the     *)
(* questions asked after it, in order (no question twice after one step).  *)
(* The schedules are printed as scripts.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Questions, Most, Steps, Dump
\* a two-step scheme: the next solution depends on this evaluation and the previous one
Adv(x, h) == 3 * x - h + 1
Nxt(x, h) == x
Ans(o, x, h) == << o, x - h >>
O == INSTANCE Observe WITH Advance <- Adv, Answer <- Ans, Next1 <- Nxt
VARIABLES run, alone, said, sched
vars == << run, alone, said, sched >>
Init == run = O!Begin(1, 0) /\ alone = O!Begin(1, 0) /\ said = {} /\ sched = << >>
Now == sched[Len(sched)]
Step == /\ run.n < Steps
        /\ run' = O!Step(run) /\ alone' = O!Step(alone) /\ sched' = Append(sched, << >>) /\ UNCHANGED said
Ask == \E o \in Questions :
        /\ sched # << >> /\ Len(Now) < Most /\ \A i \in 1..Len(Now) : Now[i] # o
        /\ run' = O!Ask(run, o) /\ said' = said \cup {<< o, run.n, O!Said(run, o) >>}
        /\ sched' = [sched EXCEPT ![Len(sched)] = Append(@, o)] /\ UNCHANGED alone
Next == Step \/ Ask
Spec == Init /\ [][Next]_vars
Undisturbed == run.n = alone.n /\ run.sol = alone.sol /\ run.hist = alone.hist
OneAnswer == \A a, b \in said : (a[1] = b[1] /\ a[2] = b[2]) => a[3] = b[3]
AsAlone == \A a \in said : a[2] = alone.n => a[3] = O!Said(alone, a[1])
\* the schedule is complete when the last step has been taken
Dumped == (Dump /\ run.n = Steps /\ Now = << >>) => PrintT(<< "SCRIPT", ToJson(SubSeq(sched, 1, Steps - 1)) >>)
=============================================================================
