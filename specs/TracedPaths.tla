------------------------------ MODULE TracedPaths ------------------------------
(* Straight paths over a triangulated surface (C33).

   g: the mesh g.m (nx, tv, fc, vh, fh; twins are 2e-1, 2e), edge lengths g.il, corner angles g.an (at the tail of a halfedge).
   A path: the points pts (<<1, vertex>>, <<2, edge>>, <<3, face>>) with coordinates cs, the lengths seg of its segments, the directions ain
   before and aout after each crossing measured against the edge crossed, the direction el in which the last segment arrives, and the direction
   the first one leaves in: fd, or at a vertex the halfedge fh of the first face and the angle wa from it. Angles, lengths in millionths. *)
EXTENDS Integers, Sequences, FiniteSets

Turn == 6283185
Near == 80
T(h) == IF h % 2 = 1 THEN h + 1 ELSE h - 1
E(h) == (h + 1) \div 2
Abs(x) == IF x < 0 THEN -x ELSE x
Close(a, b) == Abs(a - b) <= Near
SameDir(a, b, slack) == LET d == Abs(a - b) % Turn IN d <= slack \/ Turn - d <= slack
Inside(m, h) == m.fc[h] # 0
Bdry(m, e) == ~Inside(m, 2 * e) \/ ~Inside(m, 2 * e - 1)
Out(m, v) == {h \in 1..Len(m.tv) : m.tv[h] = v}
Faces(m, k) == (CASE k[1] = 1 -> {m.fc[h] : h \in Out(m, k[2])}
                  [] k[1] = 2 -> {m.fc[2 * k[2]], m.fc[2 * k[2] - 1]}
                  [] OTHER -> {k[2]}) \ {0}
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
Chk(c, name) == IF c THEN {} ELSE {name}

PointOK(g, k, c) ==
  CASE k[1] = 1 -> k[2] \in 1..Len(g.m.vh) /\ c = <<>>
    [] k[1] = 2 -> k[2] \in 1..Len(g.il) /\ Len(c) = 2 /\ c[1] >= 0 /\ c[2] >= 0
    [] k[1] = 3 -> k[2] \in 1..Len(g.m.fh) /\ Len(c) = 3 /\ \A j \in 1..3 : c[j] >= -5
    [] OTHER -> FALSE

\* the strips of faces a path can run through: face j holds points j and j+1, and at a crossing the path changes sides
RECURSIVE StripsFrom(_, _, _, _)
StripsFrom(m, p, j, f) ==
  IF j = Len(p) THEN {<<>>}
  ELSE LET here == Faces(m, p[j]) \cap Faces(m, p[j + 1])
           ok == IF f = 0 THEN here ELSE {x \in here : {x, f} = Faces(m, p[j]) /\ x # f} IN
       UNION {{<<x>> \o r : r \in StripsFrom(m, p, j + 1, x)} : x \in ok}
Strips(m, p) == StripsFrom(m, p, 1, 0)

\* angles at v before the corner at halfedge h, counterclockwise from v's first halfedge
RECURSIVE Before(_, _, _)
Before(g, h, x) == IF x = h THEN 0 ELSE g.an[x] + Before(g, h, T(g.m.nx[g.m.nx[x]]))
AngleSum(g, v) == LET S == {h \in Out(g.m, v) : Inside(g.m, h)}  f[R \in SUBSET S] == IF R = {} THEN 0 ELSE LET x == CHOOSE x \in R : TRUE IN g.an[x] + f[R \ {x}] IN f[S]
Part(q, a) == (a \div 1000) * q + ((a % 1000) * q) \div 1000

\* does the path set off in the direction asked for?
LeavesOK(g, e) ==
  IF e.seg = <<>> \/ e.seg[1] < 2000 THEN TRUE
  ELSE IF e.at[1] # 1 THEN SameDir(e.fd, Part(e.q, Turn), 2000)
  ELSE /\ e.fh # 0
       /\ LET v == e.at[2]  sum == AngleSum(g, v)
              got == Before(g, e.fh, g.m.vh[v]) + e.wa  want == Part(e.q, sum) IN
          Abs(got - want) <= 2000 \/ (Abs(Abs(got - want) - sum) <= 2000 /\ e.half = 0)

\* a path through a vertex, or so close to one that rounding decides on which side, or along the boundary, may not be retraced
Clear(e) == ~(e.half = 1 /\ e.q \in {0, 1000}) /\ \A j \in 2..Len(e.pts) - 1 : e.cs[j][1] >= 20 /\ e.cs[j][2] >= 20

TraceFails(g, e) ==
  LET p == e.pts  n == Len(p) IN
  IF e.valid = 0 THEN {"all points of a path are on the surface"}
  ELSE IF n = 0 THEN {"a path starts at the given point"}
  ELSE IF e.want = 0 THEN Chk(p[1] = e.at /\ e.len = 0 /\ Sum(e.seg, Len(e.seg)) <= Near, "a path of no length stays where it is")
  ELSE LET last == p[n]  early == e.len < e.want - Near
           stops == last[1] = 2 /\ (Bdry(g.m, last[2]) \/ \E j \in 1..Len(e.bar) : e.bar[j] = last[2]) IN
       Chk(\A j \in 1..n : PointOK(g, p[j], e.cs[j]), "all points of a path are on the surface")
       \cup Chk(p[1] = e.at, "a path starts at the given point")
       \cup Chk(n >= 2 /\ e.eg <= Near, "a path ends at the reported end point")
       \cup Chk(\A j \in 2..n - 1 : p[j][1] = 2, "a path crosses edges on its way")
       \cup Chk(Strips(g.m, p) # {}, "a path runs through faces, each next to the one before across the edge crossed")
       \cup Chk(\A j \in 2..n - 1 : ~Bdry(g.m, p[j][2]) /\ ~\E i \in 1..Len(e.bar) : e.bar[i] = p[j][2], "a path does not cross the boundary or a barrier")
       \cup Chk(Abs(Sum(e.seg, n - 1) - e.len) <= Near, "the length of a path is the reported one")
       \cup Chk(e.len <= e.want + Near, "a path is not longer than asked for")
       \cup Chk(e.mi < 0 => n <= 4000, "a path ends")
       \cup Chk(e.mi >= 0 => n <= e.mi + 3, "a path crosses no more edges than allowed")
       \cup Chk(last[1] = 3 => ~early /\ e.hit = 0, "a path ends early only at the boundary, at a barrier or at the limit of crossings")
       \cup Chk(last[1] # 1, "a path ends in a face or on an edge")
       \cup Chk(last[1] = 2 => (stops \/ n = e.mi + 2), "a path ends on an edge only at the boundary, at a barrier or at the limit of crossings")
       \cup Chk(e.hit = 1 => stops, "hitting the boundary is reported only there")
       \cup Chk((last[1] = 2 /\ stops /\ e.mi < 0) => e.hit = 1, "hitting the boundary is reported")
       \cup Chk(\A j \in 1..Len(e.ain) : e.seg[j] < 2000 \/ e.seg[j + 1] < 2000 \/ SameDir(e.ain[j], e.aout[j], 400), "a path is straight across the edges it crosses")
       \cup Chk(LeavesOK(g, e), "a path sets off in the direction asked for")
       \cup Chk(e.seg[n - 1] < 2000 \/ SameDir(e.ed, e.el, 400), "the end direction is that of the last segment")
       \cup Chk((e.doBack = 1 /\ Clear(e)) => e.back <= 200, "tracing back returns to the start")

\* a path to a vertex, tidied at the end
TrimFails(g, e) ==
  LET p == e.pts  n == Len(p) IN
  Chk(e.ok = 1 /\ p[n] = <<1, e.v>>, "a path to a vertex is tidied to end next to it")
  \cup Chk(Strips(g.m, p) # {}, "a tidied path runs through faces to the vertex")
  \cup Chk(Close(e.len, e.want), "a tidied path has its length")
  \cup Chk(p = e.there, "a tidied path crosses the edges the path from the vertex crosses")
=============================================================================
