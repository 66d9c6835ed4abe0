------------------------------ MODULE DelaunayTrace ------------------------------
(* Recorded runs of flipping to Delaunay and refinement, checked against Delaunay. *)
EXTENDS Delaunay, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad, root
vars == <<i, bad, root>>

Fails(n, g) ==
  LET e == Trace[n] IN
  IF e.op = "crash" THEN {"no crash or hang (" \o e.why \o ")"}
  ELSE IF e.op = "throw" THEN {"no failure in " \o e.of \o ": " \o e.why}
  ELSE LET st == StateFails(g, e.s) IN
       IF st # {} THEN st
       ELSE CASE e.op = "init" -> {}
              [] e.op = "delaunay" -> FlipDelaunayFails(g, e)
              [] e.op = "refine" -> RefineFails(g, e)
              [] OTHER -> {"known operation"}

Init == i = 0 /\ bad = 0 /\ root = 0
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ root' = IF Trace[i + 1].op = "init" THEN i + 1 ELSE root
  /\ LET f == Fails(i + 1, Trace[root']) IN IF f = {} THEN bad' = bad ELSE PrintT(<<"FAIL", i + 1, f>>) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
