-------------------------------- MODULE Kill --------------------------------
(***************************************************************************)
(* The kill protocol on N processes.  At every output hook each process    *)
(* looks for the kill file on its own; the looks are combined; if anybody  *)
(* saw it, all write a checkpoint and leave and the file is removed.  The  *)
(* file may appear at any moment, also between the looks of two processes, *)
(* and becomes visible to processes in any order.                          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC, Json
CONSTANTS N, MaxStep, CkEvery, Local, Dump
Procs == 0..(N-1)
VARIABLES file,      \* the file exists
          ever,      \* it has existed
          step,      \* step each process has completed
          pc,        \* "run" | "looked" | "agreed" | "gone"
          saw,       \* result of the last look
          ck,        \* step of the checkpoint each process last took part in
          when       \* script: what was seen at the deciding step
vars == << file, ever, step, pc, saw, ck, when >>
Init == /\ file = FALSE /\ ever = FALSE /\ ck = [p \in Procs |-> 0]
        /\ step = [p \in Procs |-> 1] /\ pc = [p \in Procs |-> "run"] /\ saw = [p \in Procs |-> FALSE]
        /\ when = [ step |-> 0, saw |-> [p \in 1..N |-> FALSE] ]
Appear == ~ ever /\ file' = TRUE /\ ever' = TRUE /\ UNCHANGED << step, pc, saw, ck, when >>
Look(p) == /\ pc[p] = "run"
           /\ pc' = [pc EXCEPT ![p] = "looked"]
           /\ saw' = [saw EXCEPT ![p] = file]
           /\ UNCHANGED << file, ever, step, ck, when >>
\* the reduction: nobody passes before everybody has looked at this step
Decide(p) == IF Local THEN saw[p] ELSE \E q \in Procs : saw[q]
CanPass(p) == pc[p] = "looked" /\ (Local \/ \A q \in Procs : pc[q] # "run" /\ step[q] = step[p])
Agree(p) == /\ CanPass(p) /\ \A q \in Procs : pc[q] # "run" /\ step[q] = step[p]
            /\ pc' = [pc EXCEPT ![p] = "agreed"] /\ UNCHANGED << file, ever, step, saw, ck, when >>
Go(p) == LET kill == Decide(p) IN
   /\ pc[p] = "agreed"
   /\ \A q \in Procs : pc[q] \in {"agreed", "gone"} \/ step[q] > step[p] \/ Local
   /\ IF kill \/ step[p] % CkEvery = 0 THEN ck' = [ck EXCEPT ![p] = step[p]] ELSE ck' = ck
   /\ IF kill
      THEN /\ pc' = [pc EXCEPT ![p] = "gone"]
           /\ file' = IF p = 0 THEN FALSE ELSE file
           /\ when' = [step |-> step[p], saw |-> [q \in 1..N |-> saw[q-1]]]
           /\ UNCHANGED << ever, step, saw >>
      ELSE /\ step[p] < MaxStep
           /\ pc' = [pc EXCEPT ![p] = "run"]
           /\ step' = [step EXCEPT ![p] = @ + 1]
           /\ UNCHANGED << file, ever, saw, when >>
\* saw must not be forgotten before everybody has used it: a process looks again only when all have gone on
Look2(p) == (\A q \in Procs : step[q] >= step[p]) /\ Look(p)
Next == Appear \/ \E p \in Procs : Look2(p) \/ Agree(p) \/ Go(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Gone == {p \in Procs : pc[p] = "gone"}
SameStep   == \A p, q \in Gone : step[p] = step[q]
NobodyOn   == \A p \in Gone, q \in Procs : step[q] <= step[p]
Checkpoint == \A p \in Gone : ck[p] = step[p]
OnlyIfFile == Gone # {} => ever
Removed    == (Gone = Procs) => ~ file
FirstSeen  == \A p \in Gone : \E q \in Procs : saw[q]
Ends       == <>(Gone = Procs \/ \A p \in Procs : step[p] = MaxStep)
Dumped     == (Dump /\ Gone = Procs) => PrintT(<< "SCRIPT", ToJson(when) >>)
=============================================================================
