------------------------------ MODULE Observe ------------------------------
(***************************************************************************)
(* A run that is looked at.  Between two steps anyone may ask for derived  *)
(* fields, have results or a checkpoint written, or ask for convection.    *)
(* The run has a solution, the history the scheme keeps (previous          *)
(* evaluations), and work space that is shared by steps and questions.     *)
(* Advance and Answer are functions of solution and history alone:         *)
(* whatever the work space holds, and whoever wrote it last, the run goes  *)
(* on as if nobody had asked, and a question has one answer.               *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Advance(_, _), Answer(_, _, _), Next1(_, _)
Begin(x, h) == [ n |-> 0, sol |-> x, hist |-> h, work |-> << "nobody" >> ]
Step(r) == [ n |-> r.n + 1, sol |-> Advance(r.sol, r.hist), hist |-> Next1(r.sol, r.hist), work |-> << "step", r.n >> ]
Ask(r, o) == [ r EXCEPT !.work = << "question", o >> ]
Said(r, o) == Answer(o, r.sol, r.hist)
=============================================================================
