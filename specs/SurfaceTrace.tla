----------------------------- MODULE SurfaceTrace -----------------------------
(* Recorded histories of both intrinsic triangulations, checked against IntrinsicSurface. *)
EXTENDS IntrinsicSurface, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad, root
vars == <<i, bad, root>>

Fails(n, g) ==
  LET e == Trace[n] IN
  IF e.op = "crash" THEN {"no crash or hang (" \o e.why \o ")"}
  ELSE IF e.op = "throw" THEN {"no failure in " \o e.of \o ": " \o e.why}
  ELSE IF e.op = "init" THEN StateFails(g, e.s)
  ELSE LET s == Trace[e.p].s IN
    IF e.op = "query" THEN Chk(PlaceOK(g, e.at, e.c), "a point has a valid place on the input")
                           \cup Chk(e.gap <= Near, "a point has the right place on the input")
                           \cup Chk(e.back <= Near, "a point's place leads back to it")
    ELSE IF e.op = "data" THEN Chk(SampleOK(g, s, e.iv, e.ov, e.bv), "vertex data follow the places of the vertices")
    ELSE LET t == e.s  st == StateFails(g, t) IN
       IF st # {} THEN st
       ELSE CASE e.op = "flip" -> Chk(FlipOK(s, t, e.e, e.del, e.cb), "a flip replaces one edge")
              [] e.op = "same" -> Chk(s = t /\ e.cb = <<>>, "refused changes change nothing")
                                  \cup Chk(RefusedOK(s, e.e, e.del), "a flip is refused only for a reason")
              [] e.op = "splitF" -> Chk(InsertOK(s, t, e.f, e.v, e.cb), "insertion in a face")
                                    \cup Chk(e.gap <= Near, "an inserted vertex is where it was asked for")
              [] e.op = "splitE" -> Chk(SplitOK(s, t, e.h, e.v, e.r, e.t, e.cb), "splitting an edge")
                                    \cup Chk(e.gap <= Near, "an inserted vertex is where it was asked for")
              [] e.op = "remove" -> Chk(RemoveOK(s, t, e.v, e.cb), "removal of a vertex")
              [] e.op = "stay" -> Chk(StayOK(s, t, e.v, e.cb), "a vertex that is not removed stays")
              [] OTHER -> {"known operation"}

Init == i = 0 /\ bad = 0 /\ root = 0
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ root' = IF Trace[i + 1].op = "init" THEN i + 1 ELSE root
  /\ LET f == Fails(i + 1, Trace[root']) IN IF f = {} THEN bad' = bad ELSE PrintT(<<"FAIL", i + 1, f>>) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
