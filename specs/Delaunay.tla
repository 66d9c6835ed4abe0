-------------------------------- MODULE Delaunay --------------------------------
(* Flipping an intrinsic triangulation to Delaunay, and refining it (C17): what holds of the triangulation s before and t after. *)
EXTENDS IntrinsicSurface

\* the two angles opposite an edge sum to at most a half turn
Locally(t, e, slack) == Fixed(t, e) \/ OneSided(t, e) \/ OppSum(t, e) <= Pi + slack
DelaunayOK(t) == \A e \in LiveE(t) : Locally(t, e, Near)
Strict(t) == \A e \in LiveE(t) : Fixed(t, e) \/ OneSided(t, e) \/ OppSum(t, e) < Pi - 10 * Near
Kept(s, t, S) == \A e \in S : e \in LiveE(t) /\ t.len[e] = s.len[e] /\ t.mk[e] = s.mk[e] /\ {t.tv[2 * e], t.tv[2 * e - 1]} = {s.tv[2 * e], s.tv[2 * e - 1]}
FixedEdges(s) == {e \in LiveE(s) : Fixed(s, e)}

Edges(t) == {<<e, IF a < b THEN a ELSE b, IF a < b THEN b ELSE a, t.len[e]>> : <<e, a, b>> \in {<<e, t.tv[2 * e], t.tv[2 * e - 1]>> : e \in LiveE(t)}}
\* the triangulation's edges and a list of <<end, end, length>>, alike as collections
Alike(t, list) ==
  LET n == Len(list)  D == Edges(t) IN
  /\ Cardinality(D) = n
  /\ \A d \in D : Cardinality({j \in 1..n : list[j][1] = d[2] /\ list[j][2] = d[3] /\ Abs(list[j][3] - d[4]) <= 4 * Near})
                = Cardinality({x \in D : x[2] = d[2] /\ x[3] = d[3] /\ Abs(x[4] - d[4]) <= 4 * Near})

MinAngle(t) == LET S == {t.an[h] : h \in {h \in Live(t) : Inside(t, h)}} IN CHOOSE x \in S : \A y \in S : x <= y
AskedOK(t, e) ==
  Chk(Close(e.min, MinAngle(t)), "the smallest angle is reported")
  \cup Chk(Close(e.minV, MinAngle(t)), "the smallest angle in valid faces is reported")
  \cup Chk((\A x \in LiveE(t) : Fixed(t, x) \/ OneSided(t, x) \/ OppSum(t, x) <= Pi - Near) => e.isD = 1, "a Delaunay triangulation is reported as such")
  \cup Chk(~DelaunayOK(t) => e.isD = 0, "a triangulation that is not Delaunay is reported as such")
  \cup Chk(\A h \in Live(t) : Inside(t, h) => Close(e.ca[h], t.an[h]), "requested quantities are fresh afterwards")

FlipDelaunayFails(g, e) ==
  LET s == e.s0  t == e.s  a == e.a IN
  Chk(DelaunayOK(t), "every edge free to flip is Delaunay")
  \cup Chk(Kept(s, t, FixedEdges(s)), "fixed edges stay")
  \cup Chk(LiveV(t) = LiveV(s) /\ Same(s, t, LiveV(s), LocOf), "flipping moves no vertex")
  \cup Chk(Same(s, t, LiveE(s), MkOf), "flipping leaves the marks")
  \cup Chk((\A x \in LiveE(s) : Locally(s, x, -2 * Near)) => s = t, "a Delaunay triangulation is left as it is")
  \cup AskedOK(t, e)
  \cup Chk((Strict(t) /\ \A x \in LiveE(t) : t.mk[x] = 0) => Alike(t, a.alone), "the stand-alone routine agrees")
  \cup Chk((Strict(t) /\ a.doGen = 1 /\ \A x \in LiveE(t) : t.mk[x] = 0) => Alike(t, a.gen), "the stand-alone routine agrees on a general mesh")
  \cup Chk(a.nf = 0 => Alike(s, a.alone), "no flips reported, none made")
  \cup Chk(\A j \in 1..Len(a.hyp) : a.hyp[j][1] + a.hyp[j][2] >= -Near, "hyperbolic flips end in a Delaunay triangulation")

Third == 1047197   \* of a half turn
\* from halfedge h, the corners around its tail up to fixed edges on either side, or all around
RECURSIVE Left(_, _, _, _)
Left(t, h, h0, acc) == IF h \in acc THEN acc ELSE LET n == T(Pv(t, h)) IN IF Fixed(t, E(n)) THEN acc \cup {h} ELSE Left(t, n, h0, acc \cup {h})
RECURSIVE Right(_, _, _)
Right(t, h, acc) == IF Fixed(t, E(h)) THEN acc \cup {h} ELSE LET n == t.nx[T(h)] IN IF n \in acc THEN acc \cup {h} ELSE Right(t, n, acc \cup {h})
Wedge(t, h) == SumOver(t.an, Left(t, h, h, {}) \cup Right(t, h, {}))
Hes(t, f) == {h \in Live(t) : t.fc[h] = f}
\* triangles refinement cannot be asked to improve: at a narrow cone or between fixed edges that meet narrowly, or in an input triangle at such a cone
Excused(g, e, t, f) ==
  \/ \E h \in Hes(t, f) : Wedge(t, h) < Third + Near
  \/ e.parent[f] # 0 /\ \E v \in {Corners(g, e.parent[f])[j] : j \in 1..3} : AngleSum(g.s, v) < Third + Near
CornerOK(e, t, h) == t.an[h] >= e.ang - Near \/ Pv(t, h) = T(h) \/ (Fixed(t, E(h)) /\ Fixed(t, E(Pv(t, h))))

RefineFails(g, e) ==
  LET s == e.s0  t == e.s IN
  Chk(DelaunayOK(t), "every edge free to flip is Delaunay")
  \cup Chk(e.max >= 0 => e.ins <= e.max, "no more insertions than allowed")
  \cup Chk({v \in LiveV(t) : t.loc[v][1] = 1} = {v \in LiveV(s) : s.loc[v][1] = 1}, "the input's vertices stay")
  \cup Chk((e.max < 0 \/ e.ins < e.max) => \A f \in LiveF(t) : Excused(g, e, t, f) \/ \A h \in Hes(t, f) : CornerOK(e, t, h), "all angles meet the bound")
  \cup Chk((e.rad > 0 /\ (e.max < 0 \/ e.ins < e.max)) => \A f \in LiveF(t) : Excused(g, e, t, f) \/ e.radii[f] <= e.rad + 2 * Near, "all triangles meet the size bound")
  \cup Chk(Abs(MarkedLength(t) - MarkedLength(s)) <= 4 * Near, "marked edges stay marked when they are split")
  \cup Chk(e.max = 0 => Kept(s, t, FixedEdges(s)), "fixed edges stay")
  \cup AskedOK(t, e)
=============================================================================
