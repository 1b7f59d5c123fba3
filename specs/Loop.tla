-------------------------------- MODULE Loop --------------------------------
(***************************************************************************)
(* The time loop of spectralDNS.solve as seen from outside: which calls    *)
(* are made to the integrator, the callbacks, the output and the end-of-   *)
(* step hook, and with what time, step size and step counter.              *)
(*   st.at    "head" | "stepped" | "updated" | "written" | "over"          *)
(*   st.t st.dt st.n   time, step size, step counter                       *)
(*   st.T st.dt0       end time, the step size configured before the run   *)
(*   st.sol            identity of the current solution                    *)
(*   st.reg st.closed  end-of-run callback done, output closed             *)
(* Numbers are abstract: Plus, Fits and Same are parameters, so the same   *)
(* module is explored exhaustively over integers (LoopModel) and checks    *)
(* recorded floating point runs (LoopTrace).                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Same(_, _),      \* two times are equal
          Sum(_, _, _),    \* Sum(a, b, c): c is a + b
          Fits(_, _, _)    \* Fits(t, dt, T): one more step of size dt ends no later than T

Start(e) == [ at |-> "head", t |-> e.t, dt |-> e.dt, n |-> e.tstep, T |-> e.T, dt0 |-> e.dt,
              sol |-> 0, reg |-> FALSE, closed |-> FALSE, stop |-> FALSE ]

Running(st) == st.at = "head" /\ ~ st.stop /\ Fits(st.t, st.dt, st.T)

(* what is wrong with event e happening in state st ({} when it may happen) *)
Wrong(st, e) ==
   CASE e.op = "integrate" ->
          (IF st.at = "head" THEN {} ELSE {"step-before-hooks-done"})
          \cup (IF st.stop THEN {"step-after-stop"} ELSE {})
          \cup (IF st.at # "head" \/ Fits(st.t, st.dt, st.T) THEN {} ELSE {"step-beyond-end"})
          \cup (IF Same(e.dt, st.dt) THEN {} ELSE {"step-size"})
     [] e.op = "update" ->
          (IF st.at = "stepped" THEN {} ELSE {"update-order"})
          \cup (IF Same(e.t, st.t) THEN {} ELSE {"update-time"})
          \cup (IF e.tstep = st.n THEN {} ELSE {"update-step-counter"})
          \cup (IF e.sol = st.sol THEN {} ELSE {"update-solution"})
     [] e.op = "output" ->
          (IF st.at = "updated" THEN {} ELSE {"output-order"})
          \cup (IF Same(e.t, st.t) THEN {} ELSE {"output-time"})
          \cup (IF e.tstep = st.n THEN {} ELSE {"output-step-counter"})
          \cup (IF e.sol = st.sol THEN {} ELSE {"output-solution"})
     [] e.op = "endhook" ->
          (IF st.at = "written" THEN {} ELSE {"end-hook-order"})
          \cup (IF Same(e.t, st.t) THEN {} ELSE {"end-hook-time"})
          \cup (IF e.tstep = st.n THEN {} ELSE {"end-hook-step-counter"})
     [] e.op = "regression" ->
          (IF st.at = "head" /\ ~ Running(st) THEN {} ELSE {"ended-early"})
          \cup (IF st.reg THEN {"end-of-run-callback-twice"} ELSE {})
          \cup (IF Same(e.t, st.t) THEN {} ELSE {"regression-time"})
          \cup (IF e.sol = st.sol THEN {} ELSE {"regression-solution"})
     [] e.op = "close" ->
          (IF st.at = "head" /\ ~ Running(st) THEN {} ELSE {"closed-early"})
          \cup (IF st.closed THEN {"closed-twice"} ELSE {})
     [] e.op = "return" ->
          (IF st.at = "head" /\ ~ Running(st) THEN {} ELSE {"ended-early"})
          \cup (IF st.reg THEN {} ELSE {"no-end-of-run-callback"})
          \cup (IF st.closed THEN {} ELSE {"output-not-closed"})
          \cup (IF Same(e.dt, st.dt0) THEN {} ELSE {"step-size-not-restored"})
          \cup (IF Same(e.t, st.t) /\ e.tstep = st.n THEN {} ELSE {"final-time"})

(* the state after it.  time is the time the program now shows *)
After(st, e, time) ==
   CASE e.op = "integrate" -> [st EXCEPT !.at = "stepped", !.t = time, !.dt = e.next, !.n = @ + 1, !.sol = e.sol]
     [] e.op = "update"    -> [st EXCEPT !.at = "updated"]
     [] e.op = "output"    -> [st EXCEPT !.at = "written"]
     [] e.op = "endhook"   -> [st EXCEPT !.at = "head", !.dt = e.newdt, !.stop = e.ret]
     [] e.op = "regression" -> [st EXCEPT !.reg = TRUE]
     [] e.op = "close"     -> [st EXCEPT !.closed = TRUE]
     [] e.op = "return"    -> [st EXCEPT !.at = "over"]
     [] OTHER -> st
=============================================================================
