------------------------------ MODULE SymTrace ------------------------------
(* Recorded runs of one problem and of its images under symmetries: every state of an image is the image of the state. *)
EXTENDS Symmetry, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, pos, now, first, seen, bad
vars == << sc, pos, now, first, seen, bad >>
Ev(s, k) == Traces[s].events[k]
Id == [perm |-> <<1, 2, 3>>, sgn |-> <<1, 1, 1>>, quarter |-> <<0, 0, 0>>, scale |-> "1"]
\* the position of the state of this step in the first run
Where(s, e) == CHOOSE k \in first : Ev(s, k).step = e.step
Known(s, e) == \E k \in first : Ev(s, k).step = e.step
Near(tol, a, b) == LET all == TMax(a) IN
   TShape(a, b) /\ \A j \in 1..Len(a) : RLe(TDist(a[j], b[j]), RMul(tol, RAdd(TMax(a[j]), RMul(R("1/64"), all))))
StateBad(s, e) ==
   LET g == Traces[s].cfg u == RArr(e.u) IN
   IF now.id THEN {}
   ELSE IF ~ Known(s, e) THEN {"step-the-original-has-not"}
   ELSE LET o == Ev(s, Where(s, e)) t == now.tr want == Image(g.kinds, t, g.n, now.n, RArr(o.u)) IN
      (IF Near(R(g.tol), want, u) THEN {} ELSE {"not-the-image"})
      \cup (IF RLe(RAbs(RSub(RMul(R(e.t), R(t.scale)), R(o.t))), RMul(R("1e-12"), RAdd(R(1), RAbs(R(o.t))))) THEN {} ELSE {"time"})
Init == sc \in 1..Len(Traces) /\ pos = 0 /\ now = [id |-> TRUE] /\ first = {} /\ seen = {} /\ bad = {}
Next == /\ pos < Len(Traces[sc].events)
        /\ pos' = pos + 1 /\ UNCHANGED sc
        /\ LET e == Ev(sc, pos + 1) IN
           CASE e.op = "begin" -> /\ now' = [id |-> e.tr = Id, tr |-> e.tr, n |-> e.n] /\ seen' = {} /\ UNCHANGED first
                                  /\ bad' = IF Fits(e.tr, Traces[sc].cfg.n, e.n) THEN {} ELSE {"no-symmetry-of-the-mesh"}
             [] e.op = "state" -> /\ first' = IF now.id THEN first \cup {pos + 1} ELSE first
                                  /\ seen' = seen \cup {e.step} /\ UNCHANGED now
                                  /\ bad' = StateBad(sc, e)
             [] e.op = "end"   -> /\ UNCHANGED << now, first, seen >>
                                  /\ bad' = IF seen = { Ev(sc, k).step : k \in first } THEN {} ELSE {"another-number-of-steps"}
             [] OTHER          -> UNCHANGED << now, first, seen >> /\ bad' = {"raised-" \o e.what}
Spec == Init /\ [][Next]_vars
\* a state reached by an event that is not a step of the specification is reported
Conforms == bad = {} \/ PrintT("MISMATCH " \o ToString(<< sc, pos, bad >>))
=============================================================================
