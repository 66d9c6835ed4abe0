---------------------------- MODULE NeighborsTrace ----------------------------
(* Recorded queries and cloud histories, checked against Neighbors. *)
EXTENDS Neighbors, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>
Chk(c, name) == IF c THEN {} ELSE {name}
Is(s, t) == s.live = t.live /\ s.val = t.val

Fails(e) ==
  IF e.op = "cinit" THEN Chk(Consistent(e.s) /\ e.s.comp, "a new cloud")
  ELSE IF e.op = "init" THEN {}
  ELSE
  LET par == Trace[e.p] IN
  CASE e.op = "near" ->
      LET n == Len(par.pts) IN
      IF e.k > n THEN Chk(e.x # "", "more points than there are")
      ELSE Chk(e.x = "" /\ Nearest(par.pts, 1..n, e.q, e.k, e.r), "nearest points of a location")
    [] e.op = "neigh" ->
      LET n == Len(par.pts) IN
      IF e.k > n - 1 THEN Chk(e.x # "", "more neighbours than there are")
      ELSE Chk(e.x = "" /\ Nearest(par.pts, (1..n) \ {e.i}, par.pts[e.i], e.k, e.r), "nearest neighbours of a point")
    [] e.op = "ball" ->
      Chk(Len(e.r) = Cardinality(Set(e.r)) /\ Set(e.r) = Ball(par.pts, e.q, e.rad), "points of a ball")
    [] e.op = "hoods" ->
      LET n == Len(par.pts) IN
      IF e.k > n - 1 THEN Chk(e.x # "", "more neighbours than there are")
      ELSE Chk(e.x = "" /\ Len(e.r) = n
               /\ \A j \in 1..n : Nearest(par.pts, (1..n) \ {j}, par.pts[j], e.k, e.r[j]), "neighbourhoods")
    [] e.op = "new" ->
      Chk(Consistent(e.s) /\ Is(e.s, NewPoint(par.s, e.id, e.v)) /\ e.id \notin Set(par.s.live) /\ e.was = -1, "new point")
    [] e.op = "delete" -> Chk(Consistent(e.s) /\ Is(e.s, Delete(par.s, e.id)), "deleted point")
    [] e.op = "compress" -> Chk(Consistent(e.s) /\ e.s.comp /\ Is(e.s, Compressed(par.s)), "compressed cloud")
    [] e.op = "copy" ->
      Chk(Consistent(e.s) /\ Is(e.s, par.s), "the original is not disturbed by copying")
      \cup Chk(e.live = par.s.live /\ e.ind = par.s.ind /\ e.n = par.s.n /\ e.cap = par.s.cap /\ e.comp = par.s.comp /\ e.ok = ""
               /\ e.live2 = [k \in 1..Len(e.live) |-> k], "copied cloud")
    [] OTHER -> {}

Init == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1] IN
     IF e.op = "crash" THEN PrintT(<<"FAIL", i + 1, {"no crash or hang (" \o e.why \o ")"}>>) /\ bad' = bad + 1
     ELSE LET f == Fails(e) IN IF f = {} THEN bad' = bad ELSE PrintT(<<"FAIL", i + 1, f>>) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
