------------------------------ MODULE SoupTrace ------------------------------
(* Recorded clean-ups of polygon soups, checked against Soup. *)
EXTENDS Soup, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>
Chk(c, name) == IF c THEN {} ELSE {name}

Fails(e) ==
  IF e.op = "init" THEN {}
  ELSE LET m == e.pre q == e.post IN
    IF e.op = "tri" /\ \E f \in 1..Len(m.polys) : Len(m.polys[f]) < 3
    THEN Chk(e.x # "", "faces without area are refused") \cup Chk(q = m, "a refusal changes nothing")
    ELSE IF e.op = "out" /\ \E f \in 1..Len(m.polys) : Len(m.polys[f]) # 3
    THEN Chk(e.x # "", "faces with more sides are refused") \cup Chk(q = m, "a refusal changes nothing")
    ELSE IF e.x # "" THEN {"accepted"}
    ELSE Chk(WellFormed(q), "corner coordinates match the faces")
      \cup CASE e.op = "merge" -> Chk(Merged(m, q), "identical vertices merged, faces keep their geometry")
             [] e.op = "unused" -> Chk(UnusedStripped(m, q, e.map), "exactly the unused vertices are removed, with the map")
             [] e.op = "bad" -> Chk(InvalidStripped(m, q), "exactly the invalid faces are removed")
             [] e.op = "dupv" -> Chk(RepeatingStripped(m, q), "exactly the faces with repeated vertices are removed")
             [] e.op = "dupf" -> Chk(DuplicatesStripped(m, q), "one face of each vertex set remains, in order")
             [] e.op = "tri" -> Chk(Triangulated(m, q), "faces become fans with their coordinates")
             [] e.op = "orient" -> Chk(OnlyReversals(m, q), "faces are at most reversed")
                                   \cup Chk(Oriented(m, q), "faces of orientable patches agree")
             [] e.op = "out" -> Chk(OnlyReversals(m, q), "faces are at most reversed")
                                \cup Chk(Oriented(m, q), "faces of orientable patches agree")
                                \cup Chk(Outward(m, q), "solids face outward")
             [] e.op = "union" -> Chk(United(e.parts, q), "the union lists all parts")
             [] e.op = "clear" -> Chk(q = [pts |-> <<>>, polys |-> <<>>, uv |-> <<>>], "nothing remains")
             [] OTHER -> {"unknown"}

Init == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1] IN
     IF e.op = "crash" THEN PrintT(<<"FAIL", i + 1, {"no crash or hang (" \o e.why \o ")"}>>) /\ bad' = bad + 1
     ELSE LET f == Fails(e) IN IF f = {} THEN bad' = bad ELSE PrintT(<<"FAIL", i + 1, f>>) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
