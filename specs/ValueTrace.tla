----------------------------- MODULE ValueTrace -----------------------------
(* Recorded values of geometric quantities, checked against GeometryValues. *)
EXTENDS GeometryValues, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad, root, geo
vars == <<i, bad, root, geo>>

Fails(n, r, g) ==
  LET e == Trace[n] IN
  IF e.op = "crash" THEN {"no crash or hang (" \o e.why \o ")"}
  ELSE IF e.op = "init" THEN {}
  ELSE ValueFails(Trace[r], g, e)

Init == i = 0 /\ bad = 0 /\ root = 0 /\ geo = <<>>
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET new == Trace[i + 1].op = "init" IN
     /\ root' = IF new THEN i + 1 ELSE root
     /\ geo' = IF new THEN Derive(Trace[i + 1]) ELSE geo
  /\ LET f == Fails(i + 1, root', geo') IN IF f = {} THEN bad' = bad ELSE PrintT(<<"FAIL", i + 1, f>>) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
