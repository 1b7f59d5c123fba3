------------------------------- MODULE Config ------------------------------
(***************************************************************************)
(* The configuration as a state machine.                                   *)
(*                                                                         *)
(* prog  what the program gave for each mesh type (config.update); it is   *)
(*       never forgotten                                                   *)
(* par   the parameters in effect; written by get_solver and by direct     *)
(*       assignment (params.x = v, params['x'] = v)                        *)
(* mesh, solver  those of the last get_solver                              *)
(* cb    the callbacks installed in each solver                            *)
(*                                                                         *)
(* Maps are records or functions whose domain is the set of names known.   *)
(* Own(mesh, solver) are the options of a solver, with their defaults.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
Over(a, b) == [k \in DOMAIN a \cup DOMAIN b |-> IF k \in DOMAIN b THEN b[k] ELSE a[k]]
Empty == [k \in {} |-> k]
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE Empty
Start == [ prog |-> Empty, par |-> Empty, mesh |-> "", solver |-> "", cb |-> Empty, known |-> FALSE ]
Updated(st, mesh, new) == [st EXCEPT !.prog = Over(@, [m \in {mesh} |-> Over(At(st.prog, mesh), new)])]
\* command line, else program, else default
Resolve(defaults, prog, cli) == Over(Over(defaults, prog), cli)
Got(st, mesh, solver, defaults, cli, cbs) ==
   [st EXCEPT !.par = Over(@, Resolve(defaults, At(st.prog, mesh), cli)),
              !.mesh = mesh, !.solver = solver, !.known = TRUE,
              !.cb = Over(@, [s \in {solver} |-> Over(At(st.cb, solver), cbs)])]
\* a refused request; `late` when it is refused after the options were read
Refused(st, late) == IF late THEN [st EXCEPT !.known = FALSE] ELSE st
Assigned(st, o, v) == [st EXCEPT !.par = Over(@, [k \in {o} |-> v])]
=============================================================================
