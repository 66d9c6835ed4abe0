--------------------------- MODULE IntrinsicSurface ---------------------------
(* A triangulation of a given surface by straight edges, and the edits that keep it one (C15).

   g describes the input surface: g.in its mesh (nx, tv, fc, vh, fh), g.il its edge lengths, g.s the first triangulation, g.flat whether it
   is a flat polygon with known coordinates. A state s is a triangulation: connectivity (nx, tv, fc, vh; 0 where nothing lives), edge
   lengths len, marked edges mk, and measured from them face areas ar and corner angles an (at the tail of a halfedge); the place loc, lc of
   each vertex on the input (<<1, vertex>>, <<2, edge>>, <<3, face>> and coordinates); the way tr, of length tl, of each edge over the input
   and its distance tg from where it should end; likewise ti, til, tig for each input edge over the triangulation
   (til: all the lengths the way can have where an edge or vertex appears in a face twice); the stored angle sums as;
   the distance fl between the places of the ends of each edge in the plane. Lengths, angles, areas are in millionths.
   Twins are 2e-1, 2e. *)
EXTENDS Integers, Sequences, FiniteSets

Pi == 3141593
Near == 60    \* slack of lengths, angles and areas
T(h) == IF h % 2 = 1 THEN h + 1 ELSE h - 1
E(h) == (h + 1) \div 2
Pv(s, h) == s.nx[s.nx[h]]
Live(s) == {h \in 1..Len(s.nx) : s.nx[h] # 0}
LiveV(s) == {v \in 1..Len(s.vh) : s.vh[v] # 0}
LiveE(s) == {e \in 1..Len(s.len) : s.nx[2 * e] # 0}
LiveF(s) == {s.fc[h] : h \in Live(s)} \ {0}
Inside(s, h) == s.fc[h] # 0
Bdry(s, e) == ~Inside(s, 2 * e) \/ ~Inside(s, 2 * e - 1)
Out(s, v) == {h \in Live(s) : s.tv[h] = v}
OnBdry(s, v) == \E h \in Out(s, v) : ~Inside(s, h)
Tip(s, h) == s.tv[T(h)]
Fixed(s, e) == Bdry(s, e) \/ s.mk[e] = 1
Abs(x) == IF x < 0 THEN -x ELSE x
Close(a, b) == Abs(a - b) <= Near
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Times(l, t) == ((l \div 10000) * t) \div 100 + ((l % 10000) * (t \div 1000)) \div 1000     \* l * t / 1000000 without large numbers

AngleSum(s, v) == SumOver(s.an, {h \in Out(s, v) : Inside(s, h)})
Area(s) == SumOver(s.ar, LiveF(s))
BoundaryLength(s) == SumOver(s.len, {e \in LiveE(s) : Bdry(s, e)})
MarkedLength(s) == SumOver(s.len, {e \in LiveE(s) : s.mk[e] = 1})
Chi(s) == Cardinality(LiveV(s)) - Cardinality(LiveE(s)) + Cardinality(LiveF(s))

-----------------------------------------------------------------------------
(* Every state. *)
RECURSIVE Walk(_, _, _)
Walk(s, h, acc) == IF h \in acc THEN acc ELSE Walk(s, s.nx[T(h)], acc \cup {h})     \* around a vertex
Mesh(s) ==
  /\ \A h \in Live(s) : T(h) \in Live(s) /\ s.nx[h] \in Live(s) /\ s.tv[h] \in LiveV(s)
  /\ \A h \in Live(s) : s.tv[s.nx[h]] = Tip(s, h) /\ s.fc[s.nx[h]] = s.fc[h] /\ (Inside(s, h) => s.nx[Pv(s, h)] = h /\ s.nx[h] # h)
  /\ \A h \in Live(s) : Inside(s, h) \/ Inside(s, T(h))
  /\ \A f \in LiveF(s) : Cardinality({h \in Live(s) : s.fc[h] = f}) = 3
  /\ \A v \in LiveV(s) : s.vh[v] \in Out(s, v) /\ Walk(s, s.vh[v], {}) = Out(s, v)
  /\ Cardinality({s.nx[h] : h \in Live(s)}) = Cardinality(Live(s))

Corners(g, f) == LET h == g.in.fh[f] IN <<g.in.tv[h], g.in.tv[g.in.nx[h]], g.in.tv[g.in.nx[g.in.nx[h]]]>>
NIn(g) == Len(g.in.vh)
PlaceOK(g, k, c) ==
  CASE k[1] = 1 -> k[2] \in 1..NIn(g) /\ c = <<>>
    [] k[1] = 2 -> k[2] \in 1..Len(g.il) /\ Len(c) = 2 /\ c[1] + c[2] \in 999998..1000002 /\ c[1] >= 0 /\ c[2] >= 0
    [] k[1] = 3 -> k[2] \in 1..Len(g.in.fh) /\ Len(c) = 3 /\ c[1] + c[2] + c[3] \in 999997..1000003 /\ \A j \in 1..3 : c[j] >= -Near
    [] OTHER -> FALSE
LocsOK(g, s) == \A v \in LiveV(s) :
  /\ PlaceOK(g, s.loc[v], s.lc[v])
  /\ v <= NIn(g) <=> s.loc[v] = <<1, v>>
  /\ v > NIn(g) => s.loc[v][1] > 1
  /\ OnBdry(s, v) <=> (IF v <= NIn(g) THEN OnBdry(g.in, v) ELSE s.loc[v][1] = 2 /\ Bdry(g.in, s.loc[v][2]))
AnglesOK(g, s) == \A v \in LiveV(s) : LET a == AngleSum(s, v) IN
  IF v <= NIn(g) THEN Close(a, AngleSum(g.s, v)) ELSE Close(a, IF OnBdry(s, v) THEN Pi ELSE 2 * Pi)
StoredAnglesOK(g, s) == \A v \in LiveV(s) : LET a == s.as[v] IN
  IF v <= NIn(g) THEN Close(a, AngleSum(g.s, v)) ELSE Close(a, IF OnBdry(s, v) THEN Pi ELSE 2 * Pi)

\* faces a point of mesh m touches
Around(m, k) == (CASE k[1] = 1 -> {m.fc[h] : h \in Out(m, k[2])}
                   [] k[1] = 2 -> {m.fc[2 * k[2]], m.fc[2 * k[2] - 1]}
                   [] OTHER -> {k[2]}) \ {0}
StepsOK(m, p) == \A j \in 1..Len(p) - 1 : Around(m, p[j]) \cap Around(m, p[j + 1]) # {}
CrossesEdges(p) == \A j \in 2..Len(p) - 1 : p[j][1] = 2
EdgeTraceOK(g, s, e) == LET p == s.tr[e] IN
  /\ Len(p) >= 2 /\ StepsOK(g.in, p) /\ CrossesEdges(p)
  /\ (p[1] = s.loc[s.tv[2 * e - 1]] \/ p[1][1] > 1) /\ (p[Len(p)] = s.loc[s.tv[2 * e]] \/ p[Len(p)][1] > 1)
InputTraceOK(g, s, e) == LET p == s.ti[e] IN
  /\ Len(p) >= 2 /\ StepsOK(s, p)
  /\ p[1] = <<1, g.in.tv[2 * e - 1]>> /\ p[Len(p)] = <<1, g.in.tv[2 * e]>>
  \* the only vertices on the way are the ones inserted on the edge
  /\ \A j \in 2..Len(p) - 1 : p[j][1] = 2 \/ (p[j][1] = 1 /\ s.loc[p[j][2]] = <<2, e>>)

Chk(c, name) == IF c THEN {} ELSE {name}
StateFails(g, s) ==
  IF ~Mesh(s) THEN {"triangulation is a valid mesh of triangles"}
  ELSE Chk(\A f \in LiveF(s) : s.ar[f] > 0, "triangles are not degenerate")
       \cup Chk(Chi(s) = Chi(g.s), "topology is that of the input")
       \cup Chk(Abs(Area(s) - Area(g.s)) <= 4 * Near, "total area is that of the input")
       \cup Chk(Abs(BoundaryLength(s) - BoundaryLength(g.s)) <= 4 * Near, "boundary length is that of the input")
       \cup Chk(LocsOK(g, s), "every vertex has a valid place on the input")
       \cup Chk(AnglesOK(g, s), "vertex curvatures are those of the input")
       \cup Chk(StoredAnglesOK(g, s), "stored angle sums")
       \cup Chk(g.flat = 0 \/ \A e \in LiveE(s) : Close(s.len[e], s.fl[e]), "lengths are the distances of the places of the ends")
       \cup (IF Len(s.tr) = 0 THEN {} ELSE
             Chk(\A e \in LiveE(s) : EdgeTraceOK(g, s, e), "traced edges run over the input from end to end")
             \cup Chk(\A e \in LiveE(s) : s.tg[e] <= Near, "traced edges end at the places of their ends")
             \cup Chk(\A e \in LiveE(s) : Close(s.tl[e], s.len[e]), "traced edges have the length of the edge")
             \cup Chk(Len(s.ti) = Len(g.il) /\ \A e \in 1..Len(g.il) : InputTraceOK(g, s, e), "traced input edges run over the triangulation from end to end")
             \cup Chk(\A e \in 1..Len(g.il) : s.tig[e] <= Near /\ \E j \in 1..Len(s.til[e]) : Close(s.til[e][j], g.il[e]), "traced input edges have the length of the input edge"))

-----------------------------------------------------------------------------
(* Edits, from s to t, with the callbacks cb made: <<1, e>> flip, <<2, f, v>> insertion in a face, <<3, e, h1, h2>> split. *)
Same(s, t, S, f(_, _)) == \A x \in S : f(s, x) = f(t, x)
LenOf(s, e) == s.len[e]
MkOf(s, e) == s.mk[e]
TvOf(s, h) == s.tv[h]
LocOf(s, v) == <<s.loc[v], s.lc[v]>>
OppSum(s, e) == LET h == 2 * e IN s.an[Pv(s, h)] + s.an[Pv(s, T(h))]
EndAngle(s, h) == s.an[h] + s.an[s.nx[T(h)]]            \* of the two faces at e, at the tail of h
OneSided(s, e) == LET h == 2 * e IN Pv(s, h) = T(h) \/ s.nx[h] = T(h)

FlipOK(s, t, e, del, cb) ==
  LET h == 2 * e  k == T(h)  a == s.nx[h]  b == Pv(s, h)  c == s.nx[k]  d == Pv(s, k)  old == LiveE(s) \ {e} IN
  /\ ~Fixed(s, e) /\ ~OneSided(s, e)
  /\ EndAngle(s, h) <= Pi + Near /\ EndAngle(s, k) <= Pi + Near
  /\ del = 1 => OppSum(s, e) >= Pi - Near
  /\ Live(t) = Live(s) /\ LiveV(t) = LiveV(s) /\ LiveF(t) = LiveF(s)
  /\ t.nx[b] = c /\ t.nx[d] = a
  /\ \A x \in Live(s) \ {h, k, a, b, c, d} : t.nx[x] = s.nx[x] /\ t.fc[x] = s.fc[x]
  /\ Same(s, t, Live(s) \ {h, k}, TvOf) /\ Same(s, t, old, LenOf) /\ Same(s, t, LiveE(s), MkOf) /\ Same(s, t, LiveV(s), LocOf)
  /\ cb = <<<<1, e>>>>
\* why a change may be refused
RefusedOK(s, e, del) ==
  Fixed(s, e) \/ OneSided(s, e) \/ EndAngle(s, 2 * e) >= Pi - Near \/ EndAngle(s, 2 * e - 1) >= Pi - Near \/ (del = 1 /\ OppSum(s, e) <= Pi + Near)

FaceEdges(s, f) == {E(h) : h \in {h \in Live(s) : s.fc[h] = f}}
InsertOK(s, t, f, v, cb) ==
  LET S == Out(t, v) IN
  /\ v \notin LiveV(s) /\ LiveV(t) = LiveV(s) \cup {v} /\ Live(s) \subseteq Live(t) /\ Cardinality(LiveE(t)) = Cardinality(LiveE(s)) + 3
  /\ Cardinality(S) = 3 /\ {t.nx[h] : h \in S} = {h \in Live(s) : s.fc[h] = f}
  /\ Same(s, t, Live(s), TvOf) /\ Same(s, t, LiveE(s), LenOf) /\ Same(s, t, LiveE(s), MkOf) /\ Same(s, t, LiveV(s), LocOf)
  /\ \A h \in S : t.mk[E(h)] = 0
  /\ \A x \in Live(s) : s.fc[x] # f => t.nx[x] = s.nx[x] /\ t.fc[x] = s.fc[x]
  /\ cb = <<<<2, f, v>>>>

\* h is split at t of its length; r the half from the new vertex to the tip (0: not asked)
SplitOK(s, t, h, v, r0, at, cb) ==
  LET e == E(h)  l == s.len[e]  S == Out(t, v)
      toTip == {x \in S : Tip(t, x) = Tip(s, h) /\ Close(t.len[E(x)], l - Times(l, at))}
      toTail == {x \in S : Tip(t, x) = s.tv[h] /\ Close(t.len[E(x)], Times(l, at))}
      n == IF Bdry(s, e) THEN 3 ELSE 4 IN
  /\ v \notin LiveV(s) /\ LiveV(t) = LiveV(s) \cup {v} /\ Cardinality(LiveE(t)) = Cardinality(LiveE(s)) + n - 1
  /\ Cardinality(S) = n
  /\ Same(s, t, LiveV(s), LocOf)
  /\ \A x \in LiveE(s) \ {e} : x \in LiveE(t) /\ t.len[x] = s.len[x] /\ t.mk[x] = s.mk[x] /\ t.tv[2 * x] = s.tv[2 * x] /\ t.tv[2 * x - 1] = s.tv[2 * x - 1]
  /\ \E x \in toTip, y \in toTail :
       /\ x # y /\ (r0 # 0 => x = r0)
       /\ t.mk[E(x)] = s.mk[e] /\ t.mk[E(y)] = s.mk[e] /\ \A z \in S \ {x, y} : t.mk[E(z)] = 0
       \* straight on: half the spokes lie on either side
       /\ IF n = 4 THEN t.nx[T(Pv(t, x))] # 0 /\ y = T(Pv(t, T(Pv(t, x))))
          ELSE Bdry(t, E(x)) /\ Bdry(t, E(y))
       /\ Len(cb) = 1 /\ cb[1][1] = 3 /\ cb[1][2] = e /\ {cb[1][3], cb[1][4]} = {x, y}

RECURSIVE Filter(_, _, _)
Filter(s, v, n) == IF n = 0 THEN <<>> ELSE IF s.vh[n] = 0 \/ n = v THEN Filter(s, v, n - 1) ELSE Append(Filter(s, v, n - 1), LocOf(s, n))
Places(s, v) == Filter(s, v, Len(s.vh))
OnlyFlips(cb) == \A j \in 1..Len(cb) : cb[j][1] = 1
RemoveOK(s, t, v, cb) ==
  /\ v > 0 /\ s.loc[v][1] > 1 /\ \A h \in Out(s, v) : ~Fixed(s, E(h))
  /\ Places(t, 0) = Places(s, v)
  /\ Close(MarkedLength(t), MarkedLength(s)) /\ OnlyFlips(cb)
  /\ Cardinality(LiveE(t)) = Cardinality(LiveE(s)) - 3
\* not removed: the vertex stays, though edges around it may have been flipped
StayOK(s, t, v, cb) ==
  /\ Places(t, 0) = Places(s, 0) /\ OnlyFlips(cb) /\ Cardinality(LiveE(t)) = Cardinality(LiveE(s))
  /\ \A e \in LiveE(s) : Fixed(s, e) => e \in LiveE(t) /\ t.len[e] = s.len[e] /\ t.mk[e] = s.mk[e]
  /\ (s.loc[v][1] = 1 \/ \E h \in Out(s, v) : Fixed(s, E(h))) => s = t /\ cb = <<>>

\* values on the vertices of the input, sampled at the places of the vertices, and back
SampleOK(g, s, iv, ov, bv) ==
  /\ bv = [v \in 1..Len(iv) |-> 1000000 * iv[v]]
  /\ \A v \in LiveV(s) : LET k == s.loc[v]  c == s.lc[v] IN
       Abs(ov[v] - (CASE k[1] = 1 -> 1000000 * iv[k[2]]
                      [] k[1] = 2 -> c[1] * iv[g.in.tv[2 * k[2] - 1]] + c[2] * iv[g.in.tv[2 * k[2]]]
                      [] OTHER -> LET q == Corners(g, k[2]) IN c[1] * iv[q[1]] + c[2] * iv[q[2]] + c[3] * iv[q[3]])) <= 50
=============================================================================
