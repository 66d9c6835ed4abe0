----------------------------- MODULE PointTrace -----------------------------
(* Recorded answers of SurfacePoint and BarycentricVector, checked against SurfacePoints. *)
EXTENDS SurfacePoints, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>
Chk(c, name) == IF c THEN {} ELSE {name}
Rot(c, k, s) == [x \in 1..3 |-> c[((x - 1 + s * k + 3) % 3) + 1]]

Fails(e, m) ==
  CASE e.op = "point" ->
      LET p == e.a IN
      Chk(e.some[1] = 2 /\ e.some \in InFace(m, p, e.some[2]), "some face keeps the point")
      \cup Chk(\A f \in Faces(m) : e.inF[f] \in InFace(m, p, f), "inFace keeps the point or is refused")
      \cup Chk(\A x \in Edges(m) : e.inE[x] \in InEdge(m, p, x), "inEdge keeps the point or is refused")
      \cup Chk(e.near \in Nearest(m, p), "nearest vertex")
      \cup Chk(e.interp = Interp(m, p), "interpolated value")
      \cup Chk(e.valid, "a good point is valid")
      \cup Chk(e.eq < 100 /\ e.eq >= 1, "equal to itself, and equality is opposite to inequality")
    [] e.op = "validate" -> Chk(e.valid = e.want, "validity")
    [] e.op = "pair" ->
      LET p == e.a
          q == e.b
          twin == p[1] = 0 /\ p = q IN  \* (two copies of one vertex: adjacency is not specified)
      Chk(twin \/ e.adj = (SharedF(m, p, q) # {}), "adjacent exactly when a common face exists")
      \cup Chk(e.same = (p[1] = q[1] /\ p[2] = q[2]), "same element")
      \cup Chk(IF SharedF(m, p, q) = {} THEN e.sf = 0 ELSE e.sf \in SharedF(m, p, q), "shared face")
      \cup Chk(twin \/ IF SharedE(m, p, q) = {} THEN e.se = 0 ELSE e.se \in SharedE(m, p, q), "shared edge")
      \cup Chk(e.v \in Displacement(m, p, q), "displacement between points")
      \cup Chk(e.eq = (p = q), "equality of points")
    [] e.op = "vec" ->
      LET u == e.a
          w == e.b
          twin == u[1] = 0 /\ u = w IN
      Chk(e.some[1] = 2 /\ e.some \in VInFace(m, u, e.some[2]), "some face keeps the vector")
      \cup Chk(\A f \in Faces(m) : e.inF[f] \in VInFace(m, u, f), "inFace keeps the vector or is refused")
      \cup Chk(\A x \in Edges(m) : e.inE[x] \in VInEdge(m, u, x), "inEdge keeps the vector or is refused")
      \cup Chk(IF VFaces(m, u) \cap VFaces(m, w) = {} THEN e.sf = 0 ELSE e.sf \in VFaces(m, u) \cap VFaces(m, w), "shared face of vectors")
      \cup Chk(twin \/ IF VEdges(m, u) \cap VEdges(m, w) = {} THEN e.se = 0 ELSE e.se \in VEdges(m, u) \cap VEdges(m, w), "shared edge of vectors")
      \cup Chk(e.sum \in Combine(m, u, w, 1), "sum")
      \cup Chk(e.dif \in Combine(m, u, w, -1), "difference")
      \cup Chk(e.sum2 \in Combine(m, u, w, 1), "+=")
      \cup Chk(e.dif2 \in Combine(m, u, w, -1), "-=")
      \cup Chk(e.mul1 = Scale(u, e.k) /\ e.mul2 = e.mul1 /\ e.mul3 = e.mul1 /\ e.divOk, "scaling")
      \cup Chk(e.neg = Scale(u, -1), "negation")
      \cup Chk(e.valid, "a good vector is valid")
      \cup Chk(e.hasDot = (VFaces(m, u) \cap VFaces(m, w) # {}), "inner product exists")
      \cup Chk(e.hasDot => e.dot2 \in Dots(m, u, w), "inner product")
      \cup Chk(2 * e.n2 = Norm2(m, u), "squared length")
      \cup Chk(e.normOk, "length")
      \cup Chk(e.rotOk, "rotation")
      \cup Chk(e.ndOk, "normalization")
      \cup Chk(e.eq = (u = w), "equality of vectors")
    [] e.op = "perm" ->
      Chk(e.to = Rot(e.c, e.k, -1), "to canonical order") \cup Chk(e.fr = Rot(e.c, e.k, 1), "from canonical order")
    [] e.op = "along" -> Chk(e.r = <<1, e.e, IF e.fwd THEN e.t ELSE D - e.t>>, "point along a halfedge")
    [] e.op = "hevec" ->
      LET d == IF e.fwd THEN <<1, e.e, -D, D>> ELSE <<1, e.e, D, -D>> IN
      Chk(e.r \in VInFace(m, d, e.f), "vector of a halfedge") \cup Chk(e.r2 \in VInFace(m, Scale(d, -1), e.f), "vector of the twin")
    [] OTHER -> {}

Init == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1] IN
     IF e.op = "crash" THEN PrintT(<<"FAIL", i + 1, {"no crash or hang (" \o e.why \o ")"}>>) /\ bad' = bad + 1
     ELSE IF e.op = "init" THEN bad' = bad
     ELSE LET f == Fails(e, Trace[e.p]) IN
          IF f = {} THEN bad' = bad ELSE PrintT(<<"FAIL", i + 1, f>>) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
