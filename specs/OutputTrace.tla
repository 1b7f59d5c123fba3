---------------------------- MODULE OutputTrace ----------------------------
(***************************************************************************)
(* Recorded histories of runs are behaviours of Output: after every output *)
(* hook, and when a run is over, the files hold what the specification's   *)
(* state says.  A stored result is identified by the digests of its        *)
(* arrays, and when it is new its arrays must be the inverse transform of  *)
(* the solution of that step.                                              *)
(***************************************************************************)
EXTENDS Flow, Json, IOUtils, FiniteSets
O == INSTANCE Output
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, pos, st, run, bad
vars == << sc, pos, st, run, bad >>
Ev(s, k) == Traces[s].events[k]
Cfg(s) == LET c == Traces[s].cfg IN
   [ solver |-> c.solver, form |-> c.form, mask |-> c.mask,
     g |-> [ n |-> c.n, ks |-> TLCEval(RArr(c.ks)), dealias |-> c.dealias ] ]

\* what is stored: step -> digests
Stored(f) == [k \in {f.stored[i].step : i \in DOMAIN f.stored} |->
                 f.stored[CHOOSE i \in DOMAIN f.stored : f.stored[i].step = k].digs]
DigsAt(f, n) == LET S == Stored(f) IN IF n \in DOMAIN S THEN S[n] ELSE << >>
\* the checkpoint's data of the given lag (0 the solution, 1 the one before it)
Ck(f, lag) == {i \in DOMAIN f.ck : f.ck[i].lag = lag}
CkIs(f, lag, sol) == \A i \in Ck(f, lag) : f.ck[i].name \in DOMAIN sol /\ f.ck[i].digs = sol[f.ck[i].name]
CkAll(f, lag, sol) == \A nme \in DOMAIN sol : \E i \in Ck(f, lag) : f.ck[i].name = nme

\* what is wrong with the files f when the specification's state is s
FilesBad(s, f) ==
   IF ~ s.open THEN {} ELSE
   (IF f.wexists /\ f.cexists THEN {} ELSE {"file-missing"})
   \cup (IF DOMAIN Stored(f) = DOMAIN s.res THEN {} ELSE {"result-steps"})
   \cup (IF \A k \in DOMAIN Stored(f) \cap DOMAIN s.res : Stored(f)[k] = s.res[k] THEN {} ELSE {"stored-result-changed"})
   \cup (IF s.cp = << >> THEN (IF f.ck = << >> THEN {} ELSE {"checkpoint-without-being-due"})
         ELSE LET p == s.cp[1] IN
              (IF f.tstep = p.step THEN {} ELSE {"checkpoint-step"})
              \cup (IF R(f.t) = R(p.t) THEN {} ELSE {"checkpoint-time"})
              \cup (IF CkIs(f, 0, p.val) /\ CkAll(f, 0, p.val) THEN {} ELSE {"checkpoint-data"}))

PhysClose(want, got, tol) == /\ Len(want) = Len(got)
                             /\ \A m \in 1..Len(want) : RLe(RAbs(RSub(want[m], got[m])), tol)
\* the arrays a result of solution u consists of, in spectral space
Want(s, e) == LET c == Cfg(s) u == TLCEval(RArr(e.u)) v == Velocity(c, u) IN
   IF c.solver = "VV" THEN << v[1], v[2], v[3], u[1], u[2], u[3] >> ELSE u
NewBad(s, e) ==
   (IF \A i \in DOMAIN e.files.new : e.files.new[i].step = e.step THEN {} ELSE {"stored-under-another-step"})
   \cup IF ~ Traces[s].cfg.fourier THEN {} ELSE
   IF \A i \in DOMAIN e.files.new :
        LET w == Want(s, e) got == RArr(e.files.new[i].f) IN
        /\ Len(w) = Len(got)
        /\ \A j \in DOMAIN w : LET p == ToPhysical(Cfg(s).g.n, w[j]) IN
              PhysClose(p, got[j], RMul(R(Traces[s].cfg.tol), RMul(R(4), RAdd(R(1), RMaxAbs(p)))))
   THEN {} ELSE {"result-data"}

\* a run whose program chose what to store: fields (the velocity, then the vorticity), whole or cut, each
\* prepared by the program's own routine, exactly once, when due
Chosen(s, e) == LET c == Cfg(s) u == TLCEval(RArr(e.u)) v == Velocity(c, u) kk == KsAll(c.g) IN
   CASE c.solver = "VV"   -> << v[1], v[2], v[3], u[1], u[2], u[3] >>
     [] c.solver = "NS2D" -> << u[1], u[2], FNeg(Curl(kk, v)[2]) >>
     [] OTHER             -> u \o Curl(kk, u)
ChosenBad(s, e) ==
   (IF e.prepared = (IF e.due THEN 1 ELSE 0) THEN {} ELSE {"fields-not-prepared-once-when-due"})
   \cup IF ~ e.due THEN (IF \A i \in DOMAIN e.items : ~ e.items[i].there THEN {} ELSE {"result-steps"})
   ELSE IF ~ \A i \in DOMAIN e.items : e.items[i].there /\ e.items[i].shape THEN {"chosen-field-missing"}
   ELSE LET w == Chosen(s, e) p == TLCEval([j \in DOMAIN w |-> ToPhysical(Cfg(s).g.n, w[j])]) IN
        IF \A i \in DOMAIN e.items : LET it == e.items[i] got == RArr(it.f) q == p[it.j] IN
              PhysClose([m \in 1..Len(it.sel) |-> q[it.sel[m]]], got, RMul(R(Traces[s].cfg.tol), RMul(R(4), RAdd(R(1), RMaxAbs(q)))))
        THEN {} ELSE {"chosen-field-data"}

\* phys: what has just been stored under the step (its data is judged by NewBad)
Hooked(e) == O!Hook(st, run.mode, run.w, run.c, e.step, e.t, e.now, DigsAt(e.files, e.step))

Init == /\ sc \in 1..Len(Traces) /\ pos = 0 /\ st = O!Fresh /\ run = [mode |-> "w"] /\ bad = {}
Next == /\ pos < Len(Traces[sc].events)
        /\ pos' = pos + 1 /\ UNCHANGED sc
        /\ LET e == Ev(sc, pos + 1) IN
           CASE e.op = "run"  -> st' = O!Begin(st) /\ run' = e /\ bad' = {}
             [] e.op = "hook" -> LET s == Hooked(e) IN
                  /\ st' = s /\ UNCHANGED run
                  /\ bad' = FilesBad(s, e.files) \cup NewBad(sc, e)
                            \cup (IF e.same THEN {} ELSE {"output-changes-solution"})
                            \* a due checkpoint of a two-step scheme holds the solution before this one too
                            \cup (IF O!CheckDue(run.c, e.step) => CkIs(e.files, 1, e.before) THEN {} ELSE {"checkpoint-previous"})
             [] e.op = "over" -> /\ UNCHANGED << st, run >>
                                 /\ bad' = FilesBad(st, e.files) \cup (IF e.writable THEN {} ELSE {"left-open"})
                                           \cup (IF e.stray = << >> THEN {} ELSE {"other-files"})
             [] e.op = "fields" -> UNCHANGED << st, run >> /\ bad' = ChosenBad(sc, e)
             [] e.op = "rest" -> UNCHANGED << st, run >> /\ bad' = IF e.names = << >> THEN {} ELSE {"result-steps"}
             [] OTHER -> UNCHANGED << st, run >> /\ bad' = {"raised-" \o e.what}
Spec == Init /\ [][Next]_vars
\* a state reached by an event that is not a step of the specification is reported
Conforms == bad = {} \/ PrintT("MISMATCH " \o ToString(<< sc, pos, bad >>))
=============================================================================
