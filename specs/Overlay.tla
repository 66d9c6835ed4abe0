-------------------------------- MODULE Overlay --------------------------------
(* The common subdivision of a surface's input triangulation A and an intrinsic triangulation B of it (C16).

   g: the input mesh g.in (halfedge maps nx, tv, fc, vh, fh; twins are 2e-1, 2e) and lengths g.il.
   e: B's mesh e.b, the places e.loc, e.lc of B's vertices on A, the points e.pt of the subdivision: <<type, A kind, A id, B kind, B id>> with type
   1 vertex on vertex, 2 crossing, 3 shared edge, 4 vertex in a face of A, 5 vertex on an edge of A, kinds 1 vertex, 2 edge, 3 face, and coordinates
   e.ca, e.cb; the points e.pa, e.pb along each edge; and the mesh made of it: faces e.poly with sources e.sa, e.sb, after triangulating e.tri with
   e.ta, e.tb. Numbers in millionths. *)
EXTENDS Integers, Sequences, FiniteSets

Near == 60
Mu == 1000000
T(h) == IF h % 2 = 1 THEN h + 1 ELSE h - 1
Abs(x) == IF x < 0 THEN -x ELSE x
Close(a, b) == Abs(a - b) <= Near
Chk(c, name) == IF c THEN {} ELSE {name}
From(m, e) == m.tv[2 * e - 1]
To(m, e) == m.tv[2 * e]
Flip(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)

FaceHes(m, f) == LET h == m.fh[f] IN <<h, m.nx[h], m.nx[m.nx[h]]>>
\* is the point (kind k, id i) on the closed face f
Touches(m, k, i, f) ==
  LET F == FaceHes(m, f) IN
  CASE k = 1 -> \E j \in 1..3 : m.tv[F[j]] = i
    [] k = 2 -> \E j \in 1..3 : (F[j] + 1) \div 2 = i
    [] OTHER -> i = f

\* the points along an edge that are places of the subdivision
Places(e, l) == SelectSeq(l, LAMBDA p : e.pt[p][1] # 3)
Steps(s) == {<<s[i], s[i + 1]>> : i \in 1..Len(s) - 1}
Rev(S) == {<<d[2], d[1]>> : d \in S}

PointsFails(g, e) ==
  LET n == Len(e.pt)  nB == Len(e.b.vh)  nA == Len(g.in.vh) IN
  Chk(\A v \in 1..nB : Cardinality({i \in 1..n : e.pt[i][4] = 1 /\ e.pt[i][5] = v}) = 1, "each intrinsic vertex is one point of the subdivision")
  \cup Chk(\A v \in 1..nA : Cardinality({i \in 1..n : e.pt[i][2] = 1 /\ e.pt[i][3] = v}) = 1, "each input vertex is one point of the subdivision")
  \cup Chk(\A i \in 1..n : LET p == e.pt[i] IN
           CASE p[1] = 1 -> p[2] = 1 /\ p[4] = 1
             [] p[1] \in {2, 3} -> p[2] = 2 /\ p[4] = 2
             [] p[1] = 4 -> p[2] = 3 /\ p[4] = 1
             [] p[1] = 5 -> p[2] = 2 /\ p[4] = 1
             [] OTHER -> FALSE, "each point is of the kind it says")
  \cup Chk(\A i \in 1..n : LET p == e.pt[i] IN p[4] = 1 => (e.loc[p[5]] = <<p[2], p[3]>> /\ e.lc[p[5]] = e.ca[i]), "intrinsic vertices are where the triangulation has them")

\* along an edge x of m, whose points are l; s says where the kind of a point on m is in its record, cs the coordinates on m
AlongOK(m, e, l, x, s, cs) ==
  LET n == Len(l)  pl == Places(e, l) IN
  /\ n >= 2
  /\ \A i \in 1..n : l[i] \in 1..Len(e.pt)
  /\ e.pt[l[1]][s] = 1 /\ e.pt[l[1]][s + 1] = From(m, x)
  /\ e.pt[l[n]][s] = 1 /\ e.pt[l[n]][s + 1] = To(m, x)
  /\ \A i \in 2..n - 1 : e.pt[l[i]][s] = 2 /\ e.pt[l[i]][s + 1] = x
OrderOK(e, l, cs) ==
  LET pl == Places(e, l) IN
  \A i \in 2..Len(pl) - 2 : cs[pl[i]][2] <= cs[pl[i + 1]][2] + 2
\* a shared edge is marked between two vertices, and only there
SharedOK(e, l) ==
  \A i \in 1..Len(l) - 1 :
    LET p == e.pt[l[i]]  q == e.pt[l[i + 1]] IN
    IF p[1] = 3 THEN q[4] = 1 ELSE IF q[1] = 3 THEN p[4] = 1 ELSE ~(p[4] = 1 /\ q[4] = 1)
Count(ll, p) == Cardinality({<<x, i>> \in UNION {{x} \X (1..Len(ll[x])) : x \in 1..Len(ll)} : ll[x][i] = p})

LinesFails(g, e) ==
  LET A == g.in  nA == Len(e.pa)  nB == Len(e.pb)  n == Len(e.pt) IN
  IF ~(\A x \in 1..nA : AlongOK(A, e, e.pa[x], x, 2, e.ca)) \/ ~(\A x \in 1..nB : AlongOK(e.b, e, e.pb[x], x, 4, e.cb))
  THEN {"the points along an edge run from one end to the other"}
  ELSE
  Chk(\A x \in 1..nA : OrderOK(e, e.pa[x], e.ca), "the points along an input edge are in order")
  \cup Chk(\A x \in 1..nB : OrderOK(e, e.pb[x], e.cb), "the points along an intrinsic edge are in order")
  \cup Chk(\A x \in 1..nA : SharedOK(e, e.pa[x]), "parts of an input edge shared with an intrinsic edge are marked")
  \cup Chk(\A x \in 1..nB : LET l == e.pb[x] IN IF \E i \in 1..Len(l) : e.pt[l[i]][1] = 3 THEN Len(l) = 3 ELSE \A i \in 2..Len(l) - 1 : e.pt[l[i]][1] = 2,
           "an intrinsic edge crosses input edges or is part of one")
  \cup Chk(\A i \in 1..n : LET p == e.pt[i] IN
           CASE p[1] \in {2, 3} -> Count(e.pa, i) = 1 /\ Count(e.pb, i) = 1
             [] p[1] = 5 -> Count(e.pa, i) = 1
             [] p[1] = 4 -> Count(e.pa, i) = 0
             [] OTHER -> TRUE, "each crossing is on one input and one intrinsic edge")
  \cup Chk(\A i \in 1..n : e.pt[i][1] = 3 =>
           LET x == e.pt[i][3]  l == e.pa[x]  k == CHOOSE k \in 1..Len(l) : l[k] = i  m == e.pb[e.pt[i][5]] IN
           k > 1 /\ k < Len(l) /\ {l[k - 1], l[k + 1]} = {m[1], m[3]}, "a shared edge has the same ends on both triangulations")
  \cup Chk(\A x \in 1..nB : e.ib[x] = Len(Places(e, e.pb[x])) - 2, "the number of crossings of an intrinsic edge")
  \cup Chk(\A x \in 1..nA : e.ia[x] = Len(Places(e, e.pa[x])) - 2, "the number of points inside an input edge")
  \cup Chk(e.qa = [i \in 1..Len(e.pa[e.ea]) |-> LET l == IF e.da = 1 THEN e.pa[e.ea] ELSE Flip(e.pa[e.ea]) IN <<e.pt[l[i]][4], e.pt[l[i]][5]>>], "the path of an input halfedge on the intrinsic triangulation")
  \cup Chk(e.qb = [i \in 1..Len(e.pb[e.eb]) |-> LET l == IF e.db = 1 THEN e.pb[e.eb] ELSE Flip(e.pb[e.eb]) IN <<e.pt[l[i]][2], e.pt[l[i]][3]>>], "the path of an intrinsic halfedge on the input")

Ring(c) == {<<c[i], c[(i % Len(c)) + 1]>> : i \in 1..Len(c)}
RECURSIVE Corners(_, _)
Corners(P, n) == IF n = 0 THEN 0 ELSE Len(P[n]) + Corners(P, n - 1)
NBdry(m) == Cardinality({e \in 1..Len(m.tv) \div 2 : m.fc[2 * e] = 0 \/ m.fc[2 * e - 1] = 0})
\* connected parts and boundary loops of the input
RECURSIVE Reach(_, _)
Reach(m, S) == LET N == S \cup {m.tv[T(h)] : h \in {h \in 1..Len(m.tv) : m.tv[h] \in S}} IN IF N = S THEN S ELSE Reach(m, N)
Parts(m) == Cardinality({Reach(m, {v}) : v \in 1..Len(m.vh)})
RECURSIVE Orbit(_, _, _)
Orbit(m, h, S) == IF h \in S THEN S ELSE Orbit(m, m.nx[h], S \cup {h})
Loops(m) == Cardinality({Orbit(m, h, {}) : h \in {h \in 1..Len(m.tv) : m.fc[h] = 0}})
\* the face a directed step belongs to
FaceOf(P, d) == LET S == {k \in 1..Len(P) : d \in Ring(P[k])} IN IF Cardinality(S) = 1 THEN CHOOSE k \in S : TRUE ELSE 0
SidesOK(m, P, ll, e, src) ==
  \A x \in 1..Len(ll) : \A d \in Steps(Places(e, ll[x])) :
    /\ LET f == m.fc[2 * x - 1]  k == FaceOf(P, d) IN IF f = 0 THEN k = 0 ELSE k # 0 /\ src[k] = f
    /\ LET f == m.fc[2 * x]  k == FaceOf(P, <<d[2], d[1]>>) IN IF f = 0 THEN k = 0 ELSE k # 0 /\ src[k] = f

MeshFails(g, e) ==
  LET A == g.in  P == e.poly  nP == Len(P)
      places == {i \in 1..Len(e.pt) : e.pt[i][1] # 3}
      segs == UNION {Steps(Places(e, e.pa[x])) : x \in 1..Len(e.pa)} \cup UNION {Steps(Places(e, e.pb[x])) : x \in 1..Len(e.pb)}
      all == segs \cup Rev(segs)
      rings == UNION {Ring(P[k]) : k \in 1..nP}
      nV == Len(A.vh)  nE == Len(A.tv) \div 2  nF == Len(A.fh) IN
  IF \E k \in 1..nP : Len(P[k]) < 3 \/ \E i \in 1..Len(P[k]) : P[k][i] \notin places THEN {"faces of the subdivision have at least three places as corners"}
  ELSE
  Chk(Cardinality(rings) = Corners(P, nP), "the subdivision is an oriented mesh")
  \cup Chk(rings \cup Rev(rings) = all, "the edges of the subdivision are the pieces of input and intrinsic edges")
  \cup Chk(\A k \in 1..nP : e.sa[k] \in 1..nF /\ \A i \in 1..Len(P[k]) : LET p == e.pt[P[k][i]] IN Touches(A, p[2], p[3], e.sa[k]), "each face lies in its input face")
  \cup Chk(\A k \in 1..nP : e.sb[k] \in 1..Len(e.b.fh) /\ \A i \in 1..Len(P[k]) : LET p == e.pt[P[k][i]] IN Touches(e.b, p[4], p[5], e.sb[k]), "each face lies in its intrinsic face")
  \cup Chk(SidesOK(A, P, e.pa, e, e.sa), "faces lie on the right sides of the input edges")
  \cup (IF \A x \in 1..Len(e.pb) : \A d \in Steps(Places(e, e.pb[x])) : d[1] # d[2] THEN Chk(SidesOK(e.b, P, e.pb, e, e.sb), "faces lie on the right sides of the intrinsic edges") ELSE {"an edge of the subdivision has two ends"})
  \cup Chk(e.top[1] = Cardinality(places) /\ e.top[3] = nP /\ 2 * e.top[2] = Cardinality(all), "the mesh has the points, edges and faces of the subdivision")
  \cup Chk(e.cnt = <<e.top[1], e.top[2], e.top[3]>>, "the numbers of elements are the ones foretold")
  \cup Chk(e.top[1] - e.top[2] + e.top[3] = nV - nE + nF, "the subdivision has the input's Euler characteristic")
  \cup Chk(e.top[4] = Loops(A), "the subdivision has the input's boundary loops")
  \cup Chk(e.top[5] = Parts(A), "the subdivision has the input's connected parts")
  \cup Chk(LET order == SelectSeq([i \in 1..Len(e.pt) |-> i], LAMBDA i : e.pt[i][1] # 3) IN
           [k \in 1..Len(e.sp) |-> {order[e.sp[k][i]] : i \in 1..Len(e.sp[k])}] = [k \in 1..nP |-> {P[k][i] : i \in 1..Len(P[k])}], "the polygon list of the subdivision is its mesh")

TriFails(g, e) ==
  LET A == g.in  B == e.b  P == e.tri  n == Len(P)
      area(src, f) == LET S == SelectSeq([k \in 1..n |-> k], LAMBDA k : src[k] = f) IN Sum([i \in 1..Len(S) |-> e.ar[S[i]]], Len(S)) IN
  IF \E k \in 1..n : Len(P[k]) # 3 THEN {"triangulating gives triangles"}
  ELSE
  Chk(n = Corners(e.poly, Len(e.poly)) - 2 * Len(e.poly), "triangulating gives as many triangles as it must")
  \cup Chk(\A k \in 1..n : \E j \in 1..Len(e.poly) : e.sa[j] = e.ta[k] /\ e.sb[j] = e.tb[k] /\ \A i \in 1..3 : \E q \in 1..Len(e.poly[j]) : e.poly[j][q] = P[k][i], "triangles are parts of the faces triangulated")
  \cup Chk(\A k \in 1..n : \A i \in 1..3 : Close(e.xa[k][i], e.xb[k][i]), "both triangulations give the same lengths on the subdivision")
  \cup Chk(\A f \in 1..Len(A.fh) : Abs(area(e.ta, f) - e.fa[f]) <= 200, "the faces in an input face have its area")
  \cup Chk(\A f \in 1..Len(B.fh) : Abs(area(e.tb, f) - e.fb[f]) <= 200, "the faces in an intrinsic face have its area")
  \cup Chk(e.ga = e.ta /\ e.gb = e.tb, "face data is copied from the source faces")

\* the value of data d on m at the point (kind k, id i) with coordinates c
ValueAt(m, d, k, i, c) ==
  CASE k = 1 -> Mu * d[i]
    [] k = 2 -> c[1] * d[From(m, i)] + c[2] * d[To(m, i)]
    [] OTHER -> LET F == FaceHes(m, i) IN c[1] * d[m.tv[F[1]]] + c[2] * d[m.tv[F[2]]] + c[3] * d[m.tv[F[3]]]
DataFails(g, e) ==
  LET places == {i \in 1..Len(e.pt) : e.pt[i][1] # 3} IN
  Chk(\A i \in places : Close(e.ua[i], ValueAt(g.in, e.va, e.pt[i][2], e.pt[i][3], e.ca[i])), "data of the input is interpolated to the points")
  \cup Chk(\A i \in places : Close(e.ub[i], ValueAt(e.b, e.vb, e.pt[i][4], e.pt[i][5], e.cb[i])), "data of the intrinsic triangulation is interpolated to the points")
  \cup Chk(\A i \in places : Abs(e.ma[i] - e.ua[i]) <= 2 /\ Abs(e.mb[i] - e.ub[i]) <= 2, "the interpolation matrices do the same")
  \cup Chk(\A i \in places : (e.pt[i][2] = 1 => e.ua[i] = Mu * e.va[e.pt[i][3]]) /\ (e.pt[i][4] = 1 => e.ub[i] = Mu * e.vb[e.pt[i][5]]), "data at vertices is kept exactly")
  \cup Chk((\A v \in 1..Len(e.va) : e.va[v] = e.va[1]) => \A i \in places : Abs(e.ua[i] - Mu * e.va[1]) <= 1, "constants stay constant")
  \cup Chk(\A v \in 1..Len(e.yv) : Close(e.yv[v], ValueAt(g.in, e.va, e.loc[v][1], e.loc[v][2], e.lc[v])), "pointwise transfer takes the value at each vertex")
  \cup Chk(Len(e.want) = Len(e.got) /\ \A i \in 1..Len(e.want) : Close(e.want[i], e.got[i]), "transfer keeps constants and linear functions")
  \cup Chk(e.res <= Near, "least-squares transfer leaves nothing the target could represent")

OverlayFails(g, e) ==
  LET a == PointsFails(g, e)  b == LinesFails(g, e) IN
  IF a \cup b # {} THEN a \cup b
  ELSE LET c == MeshFails(g, e) IN IF c # {} THEN c ELSE TriFails(g, e) \cup DataFails(g, e)
=============================================================================
