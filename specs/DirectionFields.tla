--------------------------- MODULE DirectionFields ---------------------------
(* Directions at the vertices or faces of a surface, n alike at each place, and their singularities (C29).

   A surface g has a mesh m (nx, tv, fc, vh, fh; twins 2e-1, 2e), corner angles an (at the tail of a halfedge) and the same angles sc stretched
   around each vertex so that they add up to a full turn (half a turn on the boundary). A direction at a vertex is measured from its first
   halfedge, at a face from its first side. A field gives at each place the angle phi, taken n times, of one of its directions: transport along
   or across a halfedge by the angle t turns it by n t. All angles in millionths. *)
EXTENDS Integers, Sequences, FiniteSets

Pi == 3141593
Turn == 6283185
Abs(x) == IF x < 0 THEN -x ELSE x
T(h) == IF h % 2 = 1 THEN h + 1 ELSE h - 1
Reg(x) == ((x + Pi) % Turn) - Pi                     \* in -Pi..Pi
Chk(c, name) == IF c THEN {} ELSE {name}
Pv(m, h) == m.nx[m.nx[h]]
Halfs(m) == 1..Len(m.nx)
Verts(m) == 1..Len(m.vh)
Faces(m) == 1..Len(m.fh)
Inside(m, h) == m.fc[h] # 0
Edge(m, h) == ~Inside(m, h) \/ ~Inside(m, T(h))       \* on the boundary
Out(m, v) == {h \in Halfs(m) : m.tv[h] = v}
OnEdge(m, v) == \E h \in Out(m, v) : ~Inside(m, h)
Closed(m) == \A h \in Halfs(m) : Inside(m, h)
Sides(m, f) == {h \in Halfs(m) : m.fc[h] = f}
Chi(m) == Len(m.vh) - Len(m.nx) \div 2 + Len(m.fh)
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})

-----------------------------------------------------------------------------
(* Frames. *)
RECURSIVE Upto(_, _, _, _, _)
Upto(g, k, h, acc, fuel) == IF k = h \/ fuel = 0 THEN acc ELSE Upto(g, T(Pv(g.m, k)), h, acc + g.sc[k], fuel - 1)
DirV(g, h) == Upto(g, g.m.vh[g.m.tv[h]], h, 0, 64)
DirF(g, h) == LET m == g.m  h0 == m.fh[m.fc[h]] IN
  IF h = h0 THEN 0 ELSE IF h = m.nx[h0] THEN Pi - g.an[h] ELSE Pi + g.an[h0]
\* transport along a halfedge from tail to tip; across it from its face to the face on the other side
Frames(g) == LET m == g.m
                 dv == [h \in Halfs(m) |-> DirV(g, h)]
                 df == [h \in Halfs(m) |-> IF Inside(m, h) THEN DirF(g, h) ELSE 0] IN
  [dv |-> dv, df |-> df,
   along |-> [h \in Halfs(m) |-> Reg(dv[T(h)] + Pi - dv[h])],
   across |-> [h \in Halfs(m) |-> IF Edge(m, h) THEN 0 ELSE Reg(df[T(h)] + Pi - df[h])]]

\* the measured angles make sense
SurfaceOK(g) == LET m == g.m IN
  /\ \A f \in Faces(m) : Abs(Sum(g.an, Sides(m, f)) - Pi) <= 3
  /\ \A v \in Verts(m) :
       LET S == {h \in Out(m, v) : Inside(m, h)}  all == IF OnEdge(m, v) THEN Pi ELSE Turn  a == Sum(g.an, S) \div 1000 IN
       /\ Abs(Sum(g.sc, S) - all) <= Cardinality(S)
       /\ \A h \in S : Abs((g.sc[h] \div 1000) * a - (g.an[h] \div 1000) * (all \div 1000)) <= 60000

\* places, links from place to place, and how a direction turns on the way
Links(m, at) == IF at = "v" THEN Halfs(m) ELSE {h \in Halfs(m) : ~Edge(m, h)}
From(m, at, h) == IF at = "v" THEN m.tv[h] ELSE m.fc[h]
To(m, at, h) == IF at = "v" THEN m.tv[T(h)] ELSE m.fc[T(h)]
Places(m, at) == IF at = "v" THEN Verts(m) ELSE Faces(m)
Way(fr, at, h) == IF at = "v" THEN fr.along[h] ELSE fr.across[h]
Bend(m, fr, e, at, h) == Reg(e.phi[To(m, at, h)] - e.phi[From(m, at, h)] - e.n * Way(fr, at, h))

-----------------------------------------------------------------------------
(* Singularities: how often the field turns around a face or a vertex beyond what the curvature there makes it turn. *)
Tie == 400         \* where the field turns half way from place to place, either way counts
Slack == 2000
IndexFits(total, ties, k) == \E j \in -ties..ties : Abs(total + j * Turn - k * Turn) <= Slack
FaceTurns(g, fr, e, f) == LET m == g.m  S == Sides(m, f) IN
  e.n * (Sum(g.sc, S) - Pi) + Sum([h \in S |-> Bend(m, fr, e, "v", h)], S)
FaceTies(g, fr, e, f) == Cardinality({h \in Sides(g.m, f) : Abs(Bend(g.m, fr, e, "v", h)) >= Pi - Tie})
Incoming(m, v) == {h \in Halfs(m) : m.tv[T(h)] = v}
VertexTurns(g, fr, e, v) == LET m == g.m  S == Incoming(m, v) IN
  e.n * (Turn - Sum(g.an, Out(m, v))) + Sum([h \in S |-> Bend(m, fr, e, "f", h)], S)
VertexTies(g, fr, e, v) == Cardinality({h \in Incoming(g.m, v) : Abs(Bend(g.m, fr, e, "f", h)) >= Pi - Tie})
IndicesOK(g, fr, e, at) == LET m == g.m IN
  IF at = "v"
  THEN Len(e.idx) = Len(m.fh) /\ \A f \in Faces(m) : IndexFits(FaceTurns(g, fr, e, f), FaceTies(g, fr, e, f), e.idx[f])
  ELSE Len(e.idx) = Len(m.vh) /\ \A v \in Verts(m) :
         IF OnEdge(m, v) THEN e.idx[v] = 0 ELSE IndexFits(VertexTurns(g, fr, e, v), VertexTies(g, fr, e, v), e.idx[v])
Tied(g, fr, e, at) == \E h \in Links(g.m, at) : Abs(Bend(g.m, fr, e, at, h)) >= Pi - Tie
TotalOK(g, fr, e, at) == Closed(g.m) /\ ~Tied(g, fr, e, at) => Sum(e.idx, DOMAIN e.idx) = e.n * Chi(g.m)
IndexFails(g, fr, e, at) ==
  Chk(IndicesOK(g, fr, e, at), "indices tell how the field turns around each element")
  \cup Chk(TotalOK(g, fr, e, at), "indices add up to the symmetry times the Euler characteristic")

-----------------------------------------------------------------------------
(* Fields that are computed. *)
Finite(e) == \A x \in DOMAIN e.phi : Abs(e.phi[x]) <= Pi + 1 /\ Abs(e.len[x] - 1000000) <= 2
Parallel(m, fr, e, at, S) == \A h \in S : Abs(Bend(m, fr, e, at, h)) <= Slack
\* is there a field that is the same everywhere
RECURSIVE Spread(_, _, _, _, _)
Spread(m, fr, n, at, off) ==
  LET S == {h \in Links(m, at) : From(m, at, h) \in DOMAIN off /\ To(m, at, h) \notin DOMAIN off} IN
  IF S = {} THEN off
  ELSE LET h == CHOOSE h \in S : TRUE  x == To(m, at, h) IN
       Spread(m, fr, n, at, [y \in DOMAIN off \cup {x} |-> IF y = x THEN Reg(off[From(m, at, h)] + n * Way(fr, at, h)) ELSE off[y]])
Flat(m, fr, n, at) == LET off == Spread(m, fr, n, at, [x \in {1} |-> 0]) IN
  \A h \in Links(m, at) : Abs(Reg(off[To(m, at, h)] - off[From(m, at, h)] - n * Way(fr, at, h))) <= 200
SmoothFails(g, fr, e, at) ==
  Chk(Finite(e), "computed fields have unit directions")
  \cup Chk(~Flat(g.m, fr, e.n, at) \/ Parallel(g.m, fr, e, at, Links(g.m, at)), "where a field can be the same everywhere, the smoothest one is")

\* aligned to the boundary: n times the direction out of the surface
BoundarySides(m, f) == {h \in Sides(m, f) : Edge(m, h)}
RimV(g, e) == \A v \in Verts(g.m) : OnEdge(g.m, v) => Abs(Reg(e.phi[v] + e.n * (Pi \div 2))) <= Slack
RimF(g, fr, e) == LET m == g.m IN \A f \in Faces(m) : LET B == BoundarySides(m, f) IN
  /\ Cardinality(B) = 1 => \A h \in B : Abs(Reg(e.phi[f] - e.n * (fr.df[h] - Pi \div 2))) <= Slack
  /\ Cardinality(B) = 2 => \A h \in Sides(m, f) \ B : Abs(Reg(e.phi[f] - e.n * (fr.df[h] + Pi \div 2))) <= Slack
\* on a cylinder the pull of the two rims is even in between: each half follows the rim on its side, all of it if both pull alike
Level(g, at) == IF at = "v" THEN g.lev ELSE g.flev
Lower(g, at, x) == 2 * Level(g, at)[x] < Level(g, at)[Len(Level(g, at))]
CylinderOK(g, fr, e, at) == g.kind = "cylinder" =>
  Parallel(g.m, fr, e, at, {h \in Links(g.m, at) : e.n % 2 = 0 \/ (Lower(g, at, From(g.m, at, h)) <=> Lower(g, at, To(g.m, at, h)))})
BoundaryFails(g, fr, e, at) ==
  IF Closed(g.m) THEN Chk(e.threw = 1, "no alignment to a boundary without one")
  ELSE IF e.threw = 1 THEN {"no failure: " \o e.why}
  ELSE Chk(Finite(e), "computed fields have unit directions")
       \cup Chk(IF at = "v" THEN RimV(g, e) ELSE RimF(g, fr, e), "directions on the boundary are the normals")
       \cup Chk(CylinderOK(g, fr, e, at), "in between the field is the smoothest one")
       \cup IndexFails(g, fr, e, at)

\* aligned to curvature: on a prism the most bent direction is across the axis
PrismOK(g, fr, e, at) == g.kind = "prism" =>
  \A x \in Places(g.m, at) : LET d == IF at = "v" THEN fr.dv[g.upV[x]] ELSE fr.df[g.upF[x]] IN
    Abs(Reg(e.phi[x] - e.n * (d + Pi \div 2))) <= Slack
CurveFails(g, fr, e, at) ==
  IF e.n \notin {2, 4} THEN Chk(e.threw = 1, "curvature has two directions or four")
  ELSE IF e.threw = 1 THEN {"no failure: " \o e.why}
  ELSE Chk(Finite(e), "computed fields have unit directions")
       \cup Chk(PrismOK(g, fr, e, at), "the field follows the curvature of a prism")
       \cup IndexFails(g, fr, e, at)

-----------------------------------------------------------------------------
(* The same surface with other numbers: hm takes its halfedges to those of the first. Field d on g1, e on g: alike from place to place. *)
SameMap(g1, g) == LET m1 == g1.m  m == g.m IN
  /\ Len(g.hm) = Len(m1.nx) /\ {g.hm[h] : h \in Halfs(m)} = Halfs(m1)
  /\ \A h \in Halfs(m) : g.hm[T(h)] = T(g.hm[h]) /\ (Inside(m, h) <=> Inside(m1, g.hm[h])) /\ (Inside(m, h) => g.hm[m.nx[h]] = m1.nx[g.hm[h]])
Alike(g1, fr1, d, g, fr, e, at) == \A h \in Links(g.m, at) : LET b == Bend(g1.m, fr1, d, at, g.hm[h]) IN
  Abs(Reg(Bend(g.m, fr, e, at, h) - b)) <= Slack
FieldAlikeFails(g1, fr1, d, g, fr, e, at) ==
  Chk(d.threw = e.threw /\ (d.threw = 1 \/ d.sure = 0 \/ e.sure = 0 \/ Alike(g1, fr1, d, g, fr, e, at)), "fields do not depend on the numbering")
=============================================================================
