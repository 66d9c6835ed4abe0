---------------------------- MODULE TrianglesTrace ----------------------------
(* Recorded intersection queries, checked against Triangles. A "pair" event has all 72 answers for one pair of triangles (6 orders
   of the corners of each, 2 orders of the pair). *)
EXTENDS Triangles, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>
Chk(c, name) == IF c THEN {} ELSE {name}
Yes(s) == \A k \in 1..Len(s) : s[k] = 1
No(s) == \A k \in 1..Len(s) : s[k] = 0

PairFails(e) ==
  LET m == Meet(e.P, e.Q) IN
  Chk(IF m THEN Yes(e.r) ELSE No(e.r), IF m THEN "triangles that share a point meet" ELSE "triangles that share no point do not meet")
  \cup (IF ~m THEN {}
        ELSE IF Coplanar(e.P, e.Q) THEN Chk(Yes(e.co), "triangles in one plane are reported as such")
        ELSE Chk(No(e.co), "triangles in different planes are reported as such")
             \cup Chk(\A k \in 1..Len(e.seg) : IsSegment(e.P, e.Q, e.seg[k][1], e.seg[k][2]), "the reported segment is the intersection"))

MeshFails(e) ==
  LET P == [f \in 1..Len(e.F) |-> [k \in 1..3 |-> e.X[e.F[f][k]]]]
      Q == [f \in 1..Len(e.G) |-> [k \in 1..3 |-> e.Y[e.G[f][k]]]]
      all == Pairs(P, Q, e.F, e.same = 1)
      Once(R) == IF e.half = 1 THEN {x \in R : x[1] < x[2]} ELSE R
      solid == Once({x \in all : ~Coplanar(P[x[1]], Q[x[2]])})
  IN
  Chk(e.x = "" /\ e.has = (all # {}), "whether two meshes intersect")
  \cup Chk(/\ Len(e.seg) = Cardinality(solid)
           /\ \A x \in solid : \E k \in 1..Len(e.seg) : IsSegment(P[x[1]], Q[x[2]], e.seg[k][1], e.seg[k][2])
           /\ \A k \in 1..Len(e.seg) : \E x \in solid : IsSegment(P[x[1]], Q[x[2]], e.seg[k][1], e.seg[k][2]),
           "one segment for each pair of faces that cross")

Fails(e) == CASE e.op = "pair" -> PairFails(e)
              [] e.op = "mesh" -> MeshFails(e)
              [] e.op = "quad" -> Chk(e.x # "", "faces with more than three sides are refused")
              [] OTHER -> {}

Init == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1] IN
     IF e.op = "crash" THEN PrintT(<<"FAIL", i + 1, {"no crash or hang (" \o e.why \o ")"}>>) /\ bad' = bad + 1
     ELSE LET f == Fails(e) IN IF f = {} THEN bad' = bad ELSE PrintT(<<"FAIL", i + 1, f>>) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
