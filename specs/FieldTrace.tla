----------------------------- MODULE FieldTrace -----------------------------
(* Recorded direction fields, checked against DirectionFields. *)
EXTENDS DirectionFields, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad, root, fr, before, fr0      \* the surface at hand and its frames; the surface before it
vars == <<i, bad, root, fr, before, fr0>>

At(op) == IF op \in {"vbound", "vcurv", "vsmooth", "vrandom"} THEN "v" ELSE "f"
Fails(n, g, f) ==
  LET e == Trace[n] IN
  IF e.op = "crash" THEN {"no crash or hang (" \o e.why \o ")"}
  ELSE IF e.op = "init" THEN Chk(SurfaceOK(e), "measured angles") \cup Chk("p" \notin DOMAIN e \/ SameMap(Trace[e.p], e), "map of halfedges")
  ELSE IF e.op \in {"vbound", "fbound"} THEN BoundaryFails(g, f, e, At(e.op))
  ELSE IF e.op \in {"vcurv", "fcurv"} THEN CurveFails(g, f, e, At(e.op))
  ELSE IF e.threw = 1 THEN {"no failure: " \o e.why}
  ELSE (IF e.op \in {"vsmooth", "fsmooth"} THEN SmoothFails(g, f, e, At(e.op)) ELSE {}) \cup IndexFails(g, f, e, At(e.op))

Again(n, g1, g, f1, f) == LET e == Trace[n] IN
  IF e.op \in {"crash", "init"} THEN {}
  ELSE IF e.as = 0 THEN {} ELSE FieldAlikeFails(g1, f1, Trace[e.as], g, f, e, At(e.op))

Init == i = 0 /\ bad = 0 /\ root = 0 /\ fr = <<>> /\ before = 0 /\ fr0 = <<>>
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET new == Trace[i + 1].op = "init" IN
     /\ root' = IF new THEN i + 1 ELSE root
     /\ fr' = IF new THEN Frames(Trace[i + 1]) ELSE fr
     /\ before' = IF new THEN root ELSE before
     /\ fr0' = IF new THEN fr ELSE fr0
  /\ LET f == Fails(i + 1, Trace[root'], fr') \cup Again(i + 1, Trace[before'], Trace[root'], fr0', fr') IN IF f = {} THEN bad' = bad ELSE PrintT(<<"FAIL", i + 1, f>>) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
