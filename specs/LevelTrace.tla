----------------------------- MODULE LevelTrace -----------------------------
(* Recorded level-set extractions, checked against LevelSets. *)
EXTENDS LevelSets, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>
Chk(c, name) == IF c THEN {} ELSE {name}

Fails(e) ==
  IF e.op # "level" THEN {}
  ELSE LET m == Trace[e.p]
           C == [c \in 1..Len(e.C) |-> [k \in 1..Len(e.C[c]) |-> Node(m, e.C[c][k])]]
           D == FoldLeft(LAMBDA acc, c : acc \o [k \in 1..(Len(c) - 1) |-> <<c[k], c[k + 1]>>], <<>>, C)
       IN Chk(\A c \in 1..Len(e.C) : Len(e.C[c]) >= 2, "curves have at least one segment")
          \cup Chk(\A c \in 1..Len(e.C) : \A k \in 1..Len(e.C[c]) : AtLevel(m, e.u, e.lv, e.C[c][k]), "points are at the level")
          \cup Chk(Complete(m, e.u, e.lv, D), "each crossed triangle contributes its segment once, increasing to the right")
          \cup Chk(Maximal(m, e.u, e.lv, C), "curves are joined up")

Init == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1] IN
     IF e.op = "crash" THEN PrintT(<<"FAIL", i + 1, {"no crash or hang (" \o e.why \o ")"}>>) /\ bad' = bad + 1
     ELSE LET f == Fails(e) IN IF f = {} THEN bad' = bad ELSE PrintT(<<"FAIL", i + 1, f>>) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
