----------------------------- MODULE StatsTrace -----------------------------
(***************************************************************************)
(* Recorded histories of the channel statistics.  A sample is the fields   *)
(* of the whole mesh (velocity, and pressure or temperature), by           *)
(* wall-normal point; what is stored are the plane averages of the fields  *)
(* and of their products.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Rat, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
Pairs(kind) == << <<1,1>>, <<2,2>>, <<3,3>>, <<1,2>>, <<1,3>>, <<2,3>> >> \o (IF kind = "heat" THEN << <<4,4>> >> ELSE << >>)
NRows(kind) == 4 + Len(Pairs(kind))
\* sums over the plane, for every wall-normal point: the fields (one that was not given counts as zero), then the products
Rows(kind, nx, f) == LET p == Pairs(kind)  at(c, i) == f[c][i] IN TLCEval(
   [r \in 1..NRows(kind) |-> [i \in 1..nx |->
      IF r <= 4 THEN (IF r <= Len(f) THEN RSum(at(r, i)) ELSE R(0)) ELSE RDot(at(p[r-4][1], i), at(p[r-4][2], i))]])
RowAdd(a, b) == IF a = << >> THEN b ELSE TLCEval([r \in 1..Len(a) |-> [i \in 1..Len(a[r]) |-> RAdd(a[r][i], b[r][i])]])
S == INSTANCE Statistics WITH Zero <- << >>, Add <- RowAdd
VARIABLES sc, pos, st, bad
vars == << sc, pos, st, bad >>
Close(s, m, plane, rows) == LET nd == R(m.n * plane) tol == R(Traces[s].cfg.tol) IN
   /\ Len(rows) = Len(m.s)
   /\ \A r \in 1..Len(m.s) : Len(rows[r]) = Len(m.s[r]) /\ LET big == RMax(R(1), RDiv(RMaxAbs(m.s[r]), nd)) IN
        \A i \in 1..Len(m.s[r]) : RLe(RAbs(RSub(R(rows[r][i]), RDiv(m.s[r][i], nd))), RMul(tol, big))
Judge(s, e, m) == (IF e.stored.n = m.n THEN {} ELSE {"number-of-samples"})
             \cup (IF Close(s, m, e.plane, e.stored.rows) THEN {} ELSE {"stored-averages"})
             \cup (IF e.given # << >> => Close(s, m, e.plane, e.given) THEN {} ELSE {"returned-averages"})
             \cup (IF e.untouched THEN {} ELSE {"field-changed"})
Init == sc \in 1..Len(Traces) /\ pos = 0 /\ bad = {} /\ st = S!Begin
Next == /\ pos < Len(Traces[sc].events)
        /\ pos' = pos + 1 /\ UNCHANGED sc
        /\ LET e == Traces[sc].events[pos + 1] k == Traces[sc].cfg.kind IN
           CASE e.op = "sample" -> LET n == TLCEval(S!Sample(st, Rows(k, e.nx, RArr(e.f)))) IN st' = n /\ bad' = Judge(sc, e, n.mem)
             [] e.op = "reset"  -> st' = S!Reset(st) /\ bad' = {}
             [] e.op = "fresh"  -> st' = S!Fresh(st) /\ bad' = {}
             [] e.op = "reopen" -> st' = S!Reopen(st) /\ bad' = {}
             [] OTHER -> st' = st /\ bad' = {"raised-" \o e.what}
Spec == Init /\ [][Next]_vars
Conforms == bad = {} \/ PrintT("MISMATCH " \o ToString(<< sc, pos, bad >>))
=============================================================================
