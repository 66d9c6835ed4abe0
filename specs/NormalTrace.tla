------------------------------ MODULE NormalTrace ------------------------------
(* Recorded histories of an integer-coordinates triangulation, checked against NormalCurves. *)
EXTENDS NormalCurves, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad, root
vars == <<i, bad, root>>

Fails(n, g) ==
  LET e == Trace[n] IN
  IF e.op = "crash" THEN {"no crash or hang (" \o e.why \o ")"}
  ELSE IF e.op = "throw" THEN {"no failure in " \o e.of \o ": " \o e.why}
  ELSE LET t == e.s  st == StateFails(g, t) IN
       IF e.op = "init" THEN st \cup StartFails(t)
       ELSE IF st # {} THEN st
       ELSE LET s == Trace[e.p].s IN
            CASE e.op = "flip" -> Chk(FlipOK(s, t, e.e), "a flip redraws the curves through the two faces only")
              [] e.op = "same" -> Chk(s = t, "refused changes change nothing")
              [] e.op = "splitF" -> Chk(SplitFaceOK(s, t, e.v), "insertion in a face keeps the curves")
              [] e.op = "splitE" -> Chk(SplitEdgeOK(s, t, e.h, e.v, e.r), "splitting an edge keeps the curves")
              [] e.op = "remove" -> Chk(RemoveOK(s, t, e.v), "removal of a vertex keeps the curves")
              [] OTHER -> {"known operation"}

Init == i = 0 /\ bad = 0 /\ root = 0
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ root' = IF Trace[i + 1].op = "init" THEN i + 1 ELSE root
  /\ LET f == Fails(i + 1, Trace[root']) IN IF f = {} THEN bad' = bad ELSE PrintT(<<"FAIL", i + 1, f>>) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
