------------------------------ MODULE FlipTrace ------------------------------
(* Recorded histories of path networks, checked against FlipPaths. *)
EXTENDS FlipPaths, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad, root
vars == <<i, bad, root>>

Fails(n, g) ==
  LET e == Trace[n] IN
  IF e.op = "crash" THEN {"no crash or hang (" \o e.why \o ")"}
  ELSE IF e.op = "throw" THEN {"no failure in " \o e.of \o ": " \o e.why}
  ELSE LET st == StateFails(g, e.s)  pf == PathFails(g, e.s) IN
       IF st # {} THEN st
       ELSE IF pf # {} THEN pf
       ELSE IF e.op = "init" THEN InitFails(e)
       ELSE LET s == Trace[e.p].s IN
            CASE e.op = "shorten" -> ShortenFails(s, e)
              [] e.op = "delaunay" -> DelaunayPathFails(s, e)
              [] e.op = "refine" -> RefinePathFails(s, e)
              [] e.op = "split" -> SplitPathFails(s, e)
              [] e.op = "rewind" -> RewindFails(g, s, e)
              [] e.op = "add" -> AddFails(s, e)
              [] e.op = "bezier" -> BezierFails(s, e)
              [] e.op = "option" -> Chk(SamePaths(s, e.s) /\ SameSurface(s, e.s), "options change no path")
              [] OTHER -> {"known operation"}

Init == i = 0 /\ bad = 0 /\ root = 0
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ root' = IF Trace[i + 1].op = "init" THEN i + 1 ELSE root
  /\ LET f == Fails(i + 1, Trace[root']) IN IF f = {} THEN bad' = bad ELSE PrintT(<<"FAIL", i + 1, f>>) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
