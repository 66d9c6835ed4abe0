-------------------------------- MODULE FlipPaths --------------------------------
(* Networks of edge paths straightened by flipping edges (C25).

   A state s is a triangulation as in IntrinsicSurface, and on it the paths s.pa (each the list of its halfedges, in order; closed when s.cl),
   the segments <<path, position>> stacked along each edge, s.at, first those on the side of halfedge 2e-1, the marked vertices s.mv, whether
   paths may be straightened around them (s.through), the angle s.sp of each halfedge at its tail, and the edges s.eo known to be the input's.
   pl, plen, pgap: the way of each path over the input, its length and the distance of its ends from where they should be. *)
EXTENDS IntrinsicSurface

N(s) == Len(s.pa)
Segs(s) == UNION {{<<k, j>> : j \in 1..Len(s.pa[k])} : k \in 1..N(s)}
H(s, x) == s.pa[x[1]][x[2]]
\* the segment before segment j of path k; 0: none
Before(s, k, j) == IF j > 1 THEN j - 1 ELSE IF s.cl[k] = 1 THEN Len(s.pa[k]) ELSE 0
Joints(s) == {x \in Segs(s) : Before(s, x[1], x[2]) # 0}
In(s, x) == s.pa[x[1]][Before(s, x[1], x[2])]
First(s, k) == s.tv[s.pa[k][1]]
Last(s, k) == Tip(s, s.pa[k][Len(s.pa[k])])
RECURSIVE LenTo(_, _, _)
LenTo(s, p, n) == IF n = 0 THEN 0 ELSE s.len[E(p[n])] + LenTo(s, p, n - 1)
PathLen(s, k) == LenTo(s, s.pa[k], Len(s.pa[k]))
RECURSIVE TotalTo(_, _)
TotalTo(s, n) == IF n = 0 THEN 0 ELSE PathLen(s, n) + TotalTo(s, n - 1)
Total(s) == TotalTo(s, N(s))
PathEdges(s) == {E(H(s, x)) : x \in Segs(s)}

Chain(s, k) ==
  LET p == s.pa[k]  n == Len(p) IN
  /\ n >= 1 /\ \A j \in 1..n : p[j] \in Live(s)
  /\ \A j \in 2..n : s.tv[p[j]] = Tip(s, p[j - 1])
  /\ s.cl[k] = 1 => Tip(s, p[n]) = s.tv[p[1]]
Layered(s) ==
  /\ \A x \in Segs(s) : \E i \in 1..Len(s.at[E(H(s, x))]) : s.at[E(H(s, x))][i] = x
  /\ \A e \in LiveE(s) : \A i \in 1..Len(s.at[e]) : LET x == s.at[e][i] IN
       x \in Segs(s) /\ E(H(s, x)) = e /\ \A j \in 1..Len(s.at[e]) : s.at[e][j] = x => i = j

(* The angle to the left of a joint is that from the outgoing halfedge counterclockwise to the incoming one. *)
Infinite == 2000000000
RECURSIVE Turn(_, _, _, _)
Turn(s, h, to, acc) ==     \* counterclockwise from h to `to'
  IF ~Inside(s, h) THEN Infinite
  ELSE LET a == acc + s.an[h]  n == T(Pv(s, h)) IN IF n = to THEN a ELSE Turn(s, n, to, a)
LeftOf(s, x) == Turn(s, H(s, x), T(In(s, x)), 0)
RightOf(s, x) == Turn(s, T(In(s, x)), H(s, x), 0)
TurnsBack(s, x) == In(s, x) = T(H(s, x))
Least(a, b) == IF a < b THEN a ELSE b
SideMin(s, x) == Least(LeftOf(s, x), RightOf(s, x))
JointV(s, x) == s.tv[H(s, x)]

Outermost(s, h) == LET q == s.at[E(h)] IN IF h % 2 = 1 THEN q[1] ELSE q[Len(q)]
RECURSIVE Between(_, _, _)
Between(s, h, to) == IF ~Inside(s, h) THEN {} ELSE LET n == T(Pv(s, h)) IN IF n = to THEN {} ELSE {E(n)} \cup Between(s, n, to)     \* edges strictly between
PrevOf(s, x) == <<x[1], Before(s, x[1], x[2])>>
ClearLeft(s, x) ==
  /\ Outermost(s, In(s, x)) = PrevOf(s, x) /\ Outermost(s, H(s, x)) = x
  /\ Between(s, H(s, x), T(In(s, x))) \cap PathEdges(s) = {}
ClearRight(s, x) ==
  /\ Outermost(s, T(In(s, x))) = PrevOf(s, x) /\ Outermost(s, T(H(s, x))) = x
  /\ Between(s, T(In(s, x)), H(s, x)) \cap PathEdges(s) = {}
Bends(a) == a < Pi - 300
May(s, x) == s.through = 1 \/ s.mv[JointV(s, x)] = 0
\* a loop of one edge around a lone vertex stays: it contracts to a point
Folded(s, h) == E(s.nx[h]) = E(Pv(s, h))
Stuck(s, x, h) == In(s, x) = H(s, x) /\ Folded(s, h)
Flexible(s, x) == May(s, x) /\ ((Bends(LeftOf(s, x)) /\ ClearLeft(s, x) /\ ~Stuck(s, x, H(s, x))) \/ (Bends(RightOf(s, x)) /\ ClearRight(s, x) /\ ~Stuck(s, x, T(H(s, x)))))
Straight(s) == \A x \in Joints(s) : ~Flexible(s, x)

\* the smallest angle, doubling back counted as the whole angle of the vertex
CodeAngle(s, x) == IF TurnsBack(s, x) THEN (IF OnBdry(s, JointV(s, x)) THEN Infinite ELSE s.as[JointV(s, x)]) ELSE SideMin(s, x)
\* is the wedge on a side of a joint blocked by the first or last segment of an open path?
End(s, x) == s.cl[x[1]] = 0 /\ (x[2] = 1 \/ x[2] = Len(s.pa[x[1]]))
EndsOn(s, S) == \E e \in S : \E i \in 1..Len(s.at[e]) : End(s, s.at[e][i])
StopsAt(s, h, x) == Outermost(s, h) # x /\ End(s, Outermost(s, h))
EndLeft(s, x) == StopsAt(s, In(s, x), PrevOf(s, x)) \/ StopsAt(s, H(s, x), x) \/ EndsOn(s, Between(s, H(s, x), T(In(s, x))))
EndRight(s, x) == StopsAt(s, T(In(s, x)), PrevOf(s, x)) \/ StopsAt(s, T(H(s, x)), x) \/ EndsOn(s, Between(s, T(In(s, x)), H(s, x)))
\* the smallest angle not held open by the end of a path, nor at a vertex where paths are pinned
IsotopyOK(s, a) ==
  LET J == {x \in Joints(s) : May(s, x)}
      L(x) == LeftOf(s, x)  R(x) == RightOf(s, x)
      Must == {x \in J : (L(x) - 400 < R(x) => ~EndLeft(s, x)) /\ (R(x) - 400 < L(x) => ~EndRight(s, x))}
      Not == {x \in J : (L(x) < R(x) - 400 /\ L(x) < Pi - 600 /\ EndLeft(s, x)) \/ (R(x) < L(x) - 400 /\ R(x) < Pi - 600 /\ EndRight(s, x))} IN
  /\ \A x \in Must : a <= CodeAngle(s, x) + Near
  /\ a = Infinite \/ \E x \in J \ Not : Close(a, CodeAngle(s, x))

MinOver(S) == IF S = {} THEN Infinite ELSE CHOOSE a \in S : \A b \in S : a <= b

SignpostsOK(s) == \A h \in Live(s) : Inside(s, h) =>
  LET n == T(Pv(s, h))  d == s.sp[n] - s.sp[h] - s.an[h] IN Close(d, 0) \/ Close(d, -s.as[s.tv[h]])
WayOK(g, s, k) ==
  LET p == s.pl[k] IN
  /\ Len(p) >= 2 /\ StepsOK(g.in, p) /\ \A j \in 1..Len(p) - 1 : ~(p[j] = p[j + 1] /\ p[j][1] = 1)
  /\ \A j \in 2..Len(p) - 1 : p[j][1] = 1 => \E i \in 2..Len(s.pa[k]) : s.loc[s.tv[s.pa[k][i]]] = p[j]

PathFails(g, s) ==
  IF ~\A k \in 1..N(s) : Chain(s, k) THEN {"every path is a chain of edges, closed ones end where they start"}
  ELSE IF ~Layered(s) THEN {"the segments on each edge are those of the paths"}
  ELSE Chk(\A k \in 1..N(s) : s.cl[k] = 0 => s.mv[First(s, k)] = 1 /\ s.mv[Last(s, k)] = 1, "ends of open paths are marked")
       \cup Chk(Abs(s.length - Total(s)) <= Near, "the length reported is that of the paths")
       \cup Chk({s.inp[j] : j \in 1..Len(s.inp)} = PathEdges(s) /\ Len(s.inp) = Cardinality(PathEdges(s)), "the edges reported to be in paths are")
       \cup Chk(Close(s.minA, MinOver({CodeAngle(s, x) : x \in Joints(s)})), "the smallest angle is reported")
       \cup Chk(IsotopyOK(s, s.minI), "the smallest angle not held open by path ends is reported")
       \cup Chk(SignpostsOK(s), "stored directions of the edges fit the corners")
       \cup Chk((s.orig = 1) <=> \A e \in LiveE(s) : s.eo[e] = 1, "an unchanged triangulation is reported as such")
       \cup Chk(Len(s.tr) = 0 \/ \A e \in LiveE(s) : s.eo[e] = 1 => s.tr[e] = <<<<1, s.tv[2 * e - 1]>>, <<1, s.tv[2 * e]>>>>, "edges known as the input's are the input's")
       \cup (IF s.perfect < 0 THEN {} ELSE
             Chk(Len(s.pl) = N(s) /\ (s.perfect = 1 \/ \E v \in LiveV(s) : s.loc[v][1] # 1) /\ \A k \in 1..N(s) : WayOK(g, s, k), "a path runs over the input from end to end")
             \cup Chk(\A k \in 1..N(s) : Close(s.plen[k], PathLen(s, k)), "the way of a path over the input is as long as the path")
             \cup Chk(\A k \in 1..N(s) : s.pgap[k] <= Near, "the way of a path ends at the ends of the path"))

-----------------------------------------------------------------------------
SpOf(s, h) == s.sp[h]
Set(q) == {q[j] : j \in 1..Len(q)}
TvAt(s, p) == [j \in 1..Len(p) |-> s.tv[p[j]]]
Stops(s, k) == TvAt(s, s.pa[k]) \o <<Last(s, k)>>
\* the paths a set of edges falls into: every edge once, ends where other than two meet or where marked
Degree(s, S, v) == Cardinality({h \in Out(s, v) : E(h) \in S})
EdgeSetFails(s, S, ex) ==
  LET Node(v) == v \in ex \/ Degree(s, S, v) \notin {0, 2} IN
  Chk(PathEdges(s) = S /\ Cardinality(Segs(s)) = Cardinality(S), "every marked edge is in one path, once")
  \cup Chk(\A x, y \in {x \in Joints(s) : Node(JointV(s, x))} : s.cl[x[1]] = 1 /\ (x[1] = y[1] => x = y), "paths end where other than two marked edges meet and at marked vertices")
  \cup Chk(\A k \in 1..N(s) : s.cl[k] = 0 => Node(First(s, k)) /\ Node(Last(s, k)), "paths end only there")

PathsAre(s, ps, n) ==      \* the paths after the first n
  /\ N(s) = n + Len(ps)
  /\ \A k \in 1..Len(ps) : Set(s.pa[n + k]) = Set(ps[k]) /\ Len(s.pa[n + k]) = Len(ps[k])
       /\ s.cl[n + k] = (IF s.tv[ps[k][1]] = Tip(s, ps[k][Len(ps[k])]) THEN 1 ELSE 0)
       /\ s.cl[n + k] = 0 => s.pa[n + k] = ps[k]
Ends(s) == UNION {{First(s, k), Last(s, k)} : k \in {k \in 1..N(s) : s.cl[k] = 0}}
Marked(s) == {v \in LiveV(s) : s.mv[v] = 1}

InitFails(g) ==
  LET s == g.s  ex == Set(g.ex) IN
  (IF g.how = "edges" THEN EdgeSetFails(s, Set(g.want[1]), ex) ELSE Chk(PathsAre(s, g.want, 0), "the network holds the paths given"))
  \cup Chk(Marked(s) = Ends(s) \cup ex, "the marked vertices are the ends and those asked for")

RECURSIVE Subseq(_, _)
Subseq(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE ELSE IF Head(a) = Head(b) THEN Subseq(Tail(a), Tail(b)) ELSE Subseq(a, Tail(b))
Rot(q, n) == SubSeq(q, n, Len(q)) \o SubSeq(q, 1, n - 1)
\* vertices of path k of s in P, in order, are passed in that order by path k of t
Visits(s, t, k, P) ==
  LET In1(v) == v \in P
      a == SelectSeq(IF s.cl[k] = 1 THEN TvAt(s, s.pa[k]) ELSE Stops(s, k), In1) IN
  IF s.cl[k] = 0 THEN Subseq(a, Stops(t, k)) ELSE \E n \in 1..Len(t.pa[k]) : Subseq(a, Rot(TvAt(t, t.pa[k]), n))

SamePaths(s, t) == t.pa = s.pa /\ t.cl = s.cl /\ t.at = s.at /\ t.mv = s.mv
SameSurface(s, t) == t.nx = s.nx /\ t.tv = s.tv /\ t.fc = s.fc /\ t.len = s.len /\ t.sp = s.sp
Untouched(s, t, S) == \A e \in S : t.len[e] = s.len[e] /\ t.tv[2 * e] = s.tv[2 * e] /\ t.tv[2 * e - 1] = s.tv[2 * e - 1]

\* one straightening: the joint x of s gives way to an arc
SelfLoop(s, k) == s.cl[k] = 1 /\ Len(s.pa[k]) = 1
ArcFor(s, t, x) ==     \* the halfedges that take the place of the two at x, or none
  LET k == x[1]  p == s.pa[k]  q == t.pa[k]  n == Len(p)  m == Len(q) IN
  IF s.cl[k] = 0
  THEN LET j == x[2]  b == j - 2  a == n - j IN
       IF m - b - a >= 1 /\ SubSeq(q, 1, b) = SubSeq(p, 1, b) /\ SubSeq(q, m - a + 1, m) = SubSeq(p, j + 1, n) THEN {SubSeq(q, b + 1, m - a)} ELSE {}
  ELSE LET r == Rot(p, PrevOf(s, x)[2])  rest == SubSeq(r, 3, n) IN
       {SubSeq(w, 1, m - (n - 2)) : w \in {w \in {Rot(q, i) : i \in 1..m} : m - (n - 2) >= 1 /\ SubSeq(w, m - (n - 2) + 1, m) = rest}}
OneStep(s, t) ==
  \E x \in Joints(s) :
    /\ ~SelfLoop(s, x[1])
    /\ \A k \in 1..N(s) : k # x[1] => (t.pa[k] = s.pa[k] \/ (s.cl[k] = 1 /\ \E i \in 1..Len(s.pa[k]) : t.pa[k] = Rot(s.pa[k], i)))
    /\ May(s, x)
    /\ ((Bends(LeftOf(s, x) - 400) /\ ClearLeft(s, x)) \/ (Bends(RightOf(s, x) - 400) /\ ClearRight(s, x)))
    /\ LET v == JointV(s, x) IN Untouched(s, t, {e \in LiveE(s) : s.tv[2 * e] # v /\ s.tv[2 * e - 1] # v})
    /\ \E a \in ArcFor(s, t, x) :
         /\ t.tv[a[1]] = s.tv[In(s, x)] /\ Tip(t, a[Len(a)]) = Tip(s, H(s, x))
         /\ LenTo(t, a, Len(a)) <= s.len[E(In(s, x))] + s.len[E(H(s, x))] + Near
         \* what is left of the wedge lies to one side of the arc, with angles of at least a half turn
         /\ LET A(i) == Turn(t, a[i], T(a[i - 1]), 0)  B(i) == Turn(t, T(a[i - 1]), a[i], 0) IN
            (\A i \in 2..Len(a) : A(i) >= Pi - 400) \/ (\A i \in 2..Len(a) : B(i) >= Pi - 400)

Sum2(a, b) == a + b
ShortenFails(s, e) ==
  LET t == e.s  limited == e.max >= 0 \/ e.rel > 0
      early == e.max >= 0 /\ e.n >= e.max
      enough == e.rel > 0 /\ Total(t) < (Total(s) \div 1000 + 1) * e.rel IN
  Chk(N(t) = N(s) /\ t.cl = s.cl, "open paths stay open, closed ones closed")
  \cup Chk(\A k \in 1..N(s) : s.cl[k] = 0 => First(t, k) = First(s, k) /\ Last(t, k) = Last(s, k), "open paths keep their ends")
  \cup Chk(\A k \in 1..N(s) : (PathLen(t, k) <= PathLen(s, k) + Near) \/ (early /\ s.cl[k] = 1 /\ (SelfLoop(s, k) \/ Len(t.pa[k]) = 2)), "no path gets longer")
  \cup Chk(LiveV(t) = LiveV(s) /\ Same(s, t, LiveV(s), LocOf) /\ t.mv = s.mv, "straightening moves and marks no vertex")
  \cup Chk(s.through = 1 \/ \A k \in 1..N(s) : Visits(s, t, k, Marked(s)), "paths pinned at marked vertices stay there")
  \cup Chk(e.max >= 0 => e.n <= e.max, "no more steps than allowed")
  \cup Chk(e.n = 0 => SamePaths(s, t) /\ SameSurface(s, t), "no steps, no change")
  \cup Chk(Straight(t) \/ early \/ enough, "no joint that can move is left with an angle below a half turn")
  \cup Chk(Straight(t) => e.again = 0, "a straight network stays as it is")
  \cup Chk((e.n = 1 /\ \A k \in 1..N(s) : ~SelfLoop(s, k)) => OneStep(s, t), "a step puts a shorter arc in the place of one joint")

DelaunayAway(t, P) == \A e \in LiveE(t) \ P : Bdry(t, e) \/ OneSided(t, e) \/ OppSum(t, e) <= Pi + Near
DelaunayPathFails(s, e) ==
  LET t == e.s IN
  Chk(SamePaths(s, t) /\ Untouched(s, t, PathEdges(s)), "paths are left alone")
  \cup Chk(LiveV(t) = LiveV(s) /\ Same(s, t, LiveV(s), LocOf), "flipping moves no vertex")
  \cup Chk(DelaunayAway(t, PathEdges(t)), "edges away from the paths are Delaunay")
\* paths over the same ground, with more vertices on them
SameWay(s, t) ==
  /\ N(t) = N(s) /\ t.cl = s.cl
  /\ \A k \in 1..N(s) : Visits(s, t, k, LiveV(s)) /\ Abs(PathLen(t, k) - PathLen(s, k)) <= Near
       /\ s.cl[k] = 0 => First(t, k) = First(s, k) /\ Last(t, k) = Last(s, k)
       /\ (\A j \in 1..Len(t.pa[k]) : t.tv[t.pa[k][j]] \in Set(Stops(s, k)) \/ t.tv[t.pa[k][j]] \notin LiveV(s))
  /\ \A x \in Joints(t) : JointV(t, x) \notin LiveV(s) => Close(LeftOf(t, x), Pi) \/ Close(RightOf(t, x), Pi)
RefinePathFails(s, e) ==
  LET t == e.s IN
  Chk(SameWay(s, t), "paths run where they ran")
  \cup Chk(\A v \in LiveV(t) : t.mv[v] = 1 <=> v \in LiveV(s) /\ s.mv[v] = 1, "marked vertices stay")
  \cup Chk({v \in LiveV(t) : t.loc[v][1] = 1} = {v \in LiveV(s) : s.loc[v][1] = 1}, "the input's vertices stay")
  \cup Chk(DelaunayAway(t, PathEdges(t)), "edges away from the paths are Delaunay")
SplitPathFails(s, e) ==
  LET t == e.s  x == s.len[E(e.h)]
      Sub(p) == \E j \in 1..Len(p) : p[j] = e.h
      New(p) == LET j == CHOOSE j \in 1..Len(p) : p[j] = e.h IN SubSeq(p, 1, j - 1) \o <<e.h1, e.h2>> \o SubSeq(p, j + 1, Len(p)) IN
  Chk(SameWay(s, t), "paths run where they ran")
  \cup Chk(Close(t.len[E(e.h1)], Times(x, e.t)) /\ Close(t.len[E(e.h2)], x - Times(x, e.t)), "a path edge is split where asked")
  \cup Chk(\A k \in 1..N(s) : IF Sub(s.pa[k]) THEN (\E i \in 1..Len(t.pa[k]) : Rot(t.pa[k], i) = New(s.pa[k]) /\ (i = 1 \/ s.cl[k] = 1)) ELSE t.pa[k] = s.pa[k], "a split path has one more edge")

\* back to the first triangulation, with other paths
RewindFails(g, s, e) ==
  LET t == e.s IN
  Chk(SameSurface(g.s, t) /\ t.eo = g.s.eo /\ t.loc = g.s.loc, "rewinding restores the first triangulation")
  \cup Chk(PathsAre(t, e.want, 0), "the network holds the paths given")
  \cup Chk(Marked(t) = Marked(s) \cup Ends(t), "the marked vertices are the old ones and the ends")
AddFails(s, e) ==
  LET t == e.s IN
  Chk(SameSurface(s, t), "adding a path leaves the triangulation")
  \cup Chk(PathsAre(t, e.want, N(s)) /\ \A k \in 1..N(s) : t.pa[k] = s.pa[k], "the network holds the paths given")

(* Geodesic Bezier curves, in a flat convex polygon: the marked points are the control points after subdividing n times. *)
Mid(a, b) == <<(a[1] + b[1]) \div 2, (a[2] + b[2]) \div 2>>
Step(q) == [j \in 1..Len(q) - 1 |-> Mid(q[j], q[j + 1])]
RECURSIVE Firsts(_), Lasts(_)
Firsts(q) == <<q[1]>> \o (IF Len(q) = 1 THEN <<>> ELSE Firsts(Step(q)))
Lasts(q) == (IF Len(q) = 1 THEN <<>> ELSE Lasts(Step(q))) \o <<q[Len(q)]>>
RECURSIVE Curve(_, _)
Curve(q, n) == IF n = 0 THEN q ELSE LET a == Curve(Firsts(q), n - 1)  b == Curve(Lasts(q), n - 1) IN a \o Tail(b)
Side(a, b, c) == ((b[1] - a[1]) \div 1000) * ((c[2] - a[2]) \div 1000) - ((b[2] - a[2]) \div 1000) * ((c[1] - a[1]) \div 1000)
Apart(a, b, c, d) == (Side(a, b, c) > 50000 /\ Side(a, b, d) > 50000) \/ (Side(a, b, c) < -50000 /\ Side(a, b, d) < -50000)
                     \/ (Side(c, d, a) > 50000 /\ Side(c, d, b) > 50000) \/ (Side(c, d, a) < -50000 /\ Side(c, d, b) < -50000)
SimplePolygon(q) == \A i, j \in 1..Len(q) - 1 : i < j => IF j = i + 1 THEN Abs(Side(q[i], q[j], q[j + 1])) > 50000 ELSE Apart(q[i], q[i + 1], q[j], q[j + 1])
BezierFails(s, e) ==
  LET t == e.s  q == e.control  want == Curve(q, e.rounds) IN
  Chk(N(t) = N(s) /\ t.cl = s.cl /\ \A k \in 1..N(s) : First(t, k) = First(s, k) /\ Last(t, k) = Last(s, k), "open paths keep their ends")
  \cup Chk(t.through = s.through, "options stay")
  \cup Chk((q # <<>> /\ SimplePolygon(q)) => Len(e.marked) = Len(want) /\ \A j \in 1..Len(want) : Abs(e.marked[j][1] - want[j][1]) <= 2000 /\ Abs(e.marked[j][2] - want[j][2]) <= 2000,
           "the marked points are those of the Bezier curve")
=============================================================================
