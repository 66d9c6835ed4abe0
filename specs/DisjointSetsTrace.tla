------------------------- MODULE DisjointSetsTrace -------------------------
(* Recorded histories of DisjointSets and MarkedDisjointSets: after every call, rep[x] is the representative of every
   element and mk[x] whether it is marked. The abstract state is carried along the recorded tree of histories.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

D == INSTANCE DisjointSets WITH N <- 1, abs <- 0, parent <- 0, rank <- 0, root <- 0

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad, st
vars == <<i, bad, st>>

After(q, e) ==
  CASE e.op = "merge" -> D!AMerge(q, e.a, e.b)
    [] e.op = "mark" -> D!AMark(q, e.a)
    [] e.op = "unmark" -> D!AUnmark(q, e.a)
    [] OTHER -> q

Fails(e, q, s) ==
  LET n == Len(e.rep) IN
  (IF \A x, y \in 1..n : (e.rep[x] = e.rep[y]) = (y \in s.cls[x]) THEN {} ELSE {"same representative exactly when merged"})
  \cup (IF \A x \in 1..n : e.rep[x] \in s.cls[x] THEN {} ELSE {"the representative is a member"})
  \cup (IF Len(e.mk) = 0 \/ \A x \in 1..n : (e.mk[x] = 1) = (x \in s.mk) THEN {} ELSE {"marked exactly when the class is"})
  \cup (IF e.op = "find" => e.r = e.rep[e.a] THEN {} ELSE {"result of find"})
  \cup (IF e.op = "isMarked" => (e.r = 1) = (e.a \in q.mk) THEN {} ELSE {"result of isMarked"})
  \cup (IF e.op = "find" /\ Trace[e.p].rep # e.rep THEN {"find changes no representative"} ELSE {})

Init == i = 0 /\ bad = {} /\ st = <<>>
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1] IN
     IF e.op = "crash" THEN PrintT(<<"FAIL", i + 1, {"no crash or hang (" \o e.why \o ")"}>>) /\ bad' = bad \cup {i + 1} /\ st' = Append(st, 0)
     ELSE LET q == IF e.op = "init" THEN D!Fresh(e.n) ELSE st[e.p]
              s == After(q, e) IN
          /\ st' = Append(st, s)
          /\ IF e.op # "init" /\ e.p \in bad THEN bad' = bad \cup {i + 1}
             ELSE LET f == Fails(e, q, s) IN
                  IF f = {} THEN bad' = bad ELSE PrintT(<<"FAIL", i + 1, f>>) /\ bad' = bad \cup {i + 1}
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
