------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* One process, several uses of the package one after another.  A use of a *)
(* configuration c:                                                        *)
(*   get_solver   all parameters the configuration knows are set, from its *)
(*                own arguments or from the defaults                       *)
(*   get_context  arrays, matrices, work space and the memory of the time  *)
(*                stepper are made from the parameters                     *)
(*   solve        the convection form is installed in the module of the    *)
(*                solver, then steps are taken: they read the parameters,  *)
(*                the context and the module                               *)
(* A use may be left: after the context is made ("build"), after a step    *)
(* ("part"), or at its end ("run").  What is shared - the parameters, and  *)
(* the modules, which solvers of one name have in common - keeps what the  *)
(* last use put there; the tag is that use's number, 0 before any.         *)
(* Own: a step reads nothing that an earlier use left.  Then the outcome   *)
(* of a run is a function of its configuration, and all sequences of uses  *)
(* printed as scripts must give what the configuration gives alone.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Confs, Variants, Solvers, MaxUses, Steps, Dump
ASSUME Confs \in Nat \ {0} /\ Variants \in Nat /\ Solvers \in 1..Confs
Solver(c) == (c % Solvers) + 1                 \* several configurations have a solver in common
VARIABLES params, module, context, uses, at, read
vars == << params, module, context, uses, at, read >>
Kinds == {"run", "part", "build"}
n == Len(uses)
Now == uses[n]
Init == /\ params = 0 /\ module = [s \in 1..Solvers |-> 0] /\ context = 0
        /\ uses = << >> /\ at = "idle" /\ read = {}
GetSolver == /\ at = "idle" /\ n < MaxUses
             /\ \E k \in Kinds, c \in 1..Confs, v \in 0..Variants :
                   /\ n = MaxUses - 1 => k = "run" /\ v = 0  \* the last use is a complete run
                   /\ uses' = Append(uses, [use |-> k, c |-> c, v |-> v])
             /\ params' = n + 1 /\ at' = "configured" /\ read' = {}
             /\ UNCHANGED << module, context >>
GetContext == /\ at = "configured" /\ context' = params
              /\ at' = IF Now.use = "build" THEN "idle" ELSE "built"
              /\ UNCHANGED << params, module, uses, read >>
Install == /\ at = "built" /\ module' = [module EXCEPT ![Solver(Now.c)] = params]
           /\ at' = "0" /\ UNCHANGED << params, context, uses, read >>
Step == /\ \E k \in 0..(Steps - 1) : /\ at = ToString(k)
                                     /\ at' = IF Now.use = "part" \/ k + 1 = Steps THEN "idle" ELSE ToString(k + 1)
        /\ read' = read \cup {params, context, module[Solver(Now.c)]}
        /\ UNCHANGED << params, module, context, uses >>
Over == at = "idle" /\ n = MaxUses
Next == GetSolver \/ GetContext \/ Install \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Own == read \subseteq {n}
Finishes == <>Over
\* a variant (the same mesh and solver, other parameters) is of interest before its own configuration
Telling == \A j \in 1..n : uses[j].v # 0 => uses[j].c = Now.c
Dumped == (Dump /\ Over /\ Telling) => PrintT(<< "SCRIPT", ToJson(uses) >>)
=============================================================================
