------------------------------ MODULE OverlayTrace ------------------------------
(* Recorded common subdivisions, checked against Overlay. *)
EXTENDS Overlay, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>

Fails(n) ==
  LET e == Trace[n] IN
  IF e.op = "crash" THEN {"no crash or hang (" \o e.why \o ")"}
  ELSE IF e.op = "throw" THEN {"no failure in " \o e.of \o ": " \o e.why}
  ELSE CASE e.op = "init" -> {}
         [] e.op = "overlay" -> OverlayFails(Trace[e.p], e)
         [] OTHER -> {"known operation"}

Init == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET f == Fails(i + 1) IN IF f = {} THEN bad' = bad ELSE PrintT(<<"FAIL", i + 1, f>>) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
