---------------------------- MODULE ConfigModel ----------------------------
(***************************************************************************)
(* All histories of one option: set by the program for this mesh or for    *)
(* another, given on the command line or not, given there wrongly,         *)
(* assigned directly.  Complete histories are printed as scripts.          *)
(***************************************************************************)
EXTENDS Config, Json, FiniteSets
CONSTANTS Depth, Dump
VARIABLES st, hist
vars == << st, hist >>
Ops == { [op |-> "update", mesh |-> m, v |-> v] : m \in {"this", "other"}, v \in {"v1", "v2"} }
  \cup { [op |-> "get", mesh |-> "this", v |-> v] : v \in {"", "v1", "v2"} }
  \cup { [op |-> "get", mesh |-> "other", v |-> ""], [op |-> "bad", mesh |-> "this", v |-> "bad"] }
  \cup { [op |-> "set", mesh |-> how, v |-> "v2"] : how \in {"attr", "key"} }
One(v) == IF v = "" THEN Empty ELSE [o \in {"o"} |-> v]
Do(e) == CASE e.op = "update" -> Updated(st, e.mesh, One(e.v))
           [] e.op = "get" -> Got(st, e.mesh, e.mesh, [o \in {"o"} |-> "d" \o e.mesh], One(e.v), Empty)
           [] e.op = "bad" -> Refused(st, FALSE)
           [] OTHER -> Assigned(st, "o", e.v)
Init == st = Start /\ hist = << >>
Next == /\ Len(hist) < Depth
        /\ \E e \in Ops :
             /\ e.op = "set" => st.known
             /\ st' = Do(e) /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_vars

Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
LastGet == Max({i \in 1..Len(hist) : hist[i].op = "get"})
LastSet == Max({i \in 1..Len(hist) : hist[i].op = "set" /\ i > LastGet})
LastUpd == Max({i \in 1..LastGet : hist[i].op = "update" /\ hist[i].mesh = hist[LastGet].mesh})
\* the rule of precedence, read off the history
Wanted == IF LastSet > 0 THEN hist[LastSet].v
          ELSE IF hist[LastGet].v # "" THEN hist[LastGet].v
          ELSE IF LastUpd > 0 THEN hist[LastUpd].v
          ELSE "d" \o hist[LastGet].mesh
Precedence == LastGet > 0 => st.par["o"] = Wanted
Dumped == (Dump /\ LastGet > 0 /\ Len(hist) = Depth) => PrintT(<< "SCRIPT", ToJson(hist) >>)
=============================================================================
