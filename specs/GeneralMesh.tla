---------------------------- MODULE GeneralMesh ----------------------------
(* A general polygon mesh: any number of halfedges may share an edge, faces may be inconsistently oriented, and a
   vertex may be a corner of unconnected fans. The same records describe manifold meshes, whose edges have exactly two
   halfedges, one of which may be exterior.

   A mesh is a record m of
     H, V, E, F, B            sets of live halfedges, vertices, edges, faces, boundary loops
     nx, sb, tl, ed, fc, or   on H: next, sibling, tail, edge, face (negative: boundary loop), orientation flag
     vh, eh, fh, bh           representatives
     man                      is it a manifold mesh (twins implicit)?                                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

SeqSet(s) == {s[k] : k \in 1..Len(s)}
MeshOf(s) ==
  LET H == SeqSet(s.H) V == SeqSet(s.V) E == SeqSet(s.E) F == SeqSet(s.F) B == SeqSet(s.B) IN
  [H |-> H, V |-> V, E |-> E, F |-> F, B |-> B,
   nx |-> [h \in H |-> s.nx[h]], sb |-> [h \in H |-> s.tw[h]], tl |-> [h \in H |-> s.tl[h]],
   ed |-> [h \in H |-> s.ed[h]], fc |-> [h \in H |-> s.fc[h]], or |-> [h \in H |-> s.or[h]],
   vh |-> [v \in V |-> s.vh[v]], eh |-> [e \in E |-> s.eh[e]], fh |-> [f \in F |-> s.fh[f]], bh |-> [b \in B |-> s.bh[b]],
   man |-> s.man]

Interior(m, h) == m.fc[h] > 0
Tip(m, h) == m.tl[m.nx[h]]
Pv(m, y) == CHOOSE h \in m.H : m.nx[h] = y

RECURSIVE OrbitFrom(_, _, _, _)
OrbitFrom(fn, h, start, n) == IF n = 0 \/ fn[h] = start THEN <<h>> ELSE <<h>> \o OrbitFrom(fn, fn[h], start, n - 1)
Ring(m, h) == OrbitFrom(m.nx, h, h, Cardinality(m.H))        \* halfedges of a face, in order
Siblings(m, h) == OrbitFrom(m.sb, h, h, Cardinality(m.H))    \* halfedges of an edge
RECURSIVE FanFrom(_, _, _, _)
FanFrom(m, h, start, n) == LET g == m.nx[m.sb[h]] IN
  IF n = 0 \/ g = start THEN <<h>> ELSE <<h>> \o FanFrom(m, g, start, n - 1)
RECURSIVE FanInFrom(_, _, _, _)
FanInFrom(m, h, start, n) == LET g == m.sb[m.nx[h]] IN
  IF n = 0 \/ g = start THEN <<h>> ELSE <<h>> \o FanInFrom(m, g, start, n - 1)

HeOfFace(m, f) == {h \in m.H : m.fc[h] = f}
HeOfEdge(m, e) == {h \in m.H : m.ed[h] = e}
Out(m, v) == {h \in m.H : m.tl[h] = v}
In(m, v) == {h \in m.H : Tip(m, h) = v}
EdgeBoundary(m, e) == IF m.man THEN \E h \in HeOfEdge(m, e) : ~Interior(m, h) ELSE Cardinality(HeOfEdge(m, e)) = 1
EdgeManifold(m, e) == Cardinality(HeOfEdge(m, e)) <= 2
EdgeOriented(m, e) == LET S == HeOfEdge(m, e) IN
  IF Cardinality(S) = 1 THEN TRUE ELSE Cardinality(S) = 2 /\ (\A h, g \in S : h # g => m.or[h] # m.or[g])
IsTri(m, f) == Len(Ring(m, m.fh[f])) = 3

(* A corner (at the tail of h) is joined to another across each of its two sides, if that side has a partner. *)
CornerLinks(m, h) ==
  LET across(x, atTail) == \* partners of halfedge x, as the corner at x's tail / tip
        {IF (m.or[y] = m.or[x]) = atTail THEN y ELSE m.nx[y] : y \in HeOfEdge(m, m.ed[x]) \ {x}}
  IN across(h, TRUE) \cup across(Pv(m, h), FALSE)
RECURSIVE CornersReach(_, _, _)
CornersReach(m, front, seen) ==
  LET n == {c \in UNION {CornerLinks(m, h) : h \in front} : Interior(m, c)} \ seen IN
  IF n = {} THEN seen ELSE CornersReach(m, n, seen \cup n)
CornersAt(m, v) == {h \in Out(m, v) : Interior(m, h)}
VertexManifold(m, v) ==
  /\ \A h \in Out(m, v) \cup In(m, v) : EdgeManifold(m, m.ed[h])
  /\ LET C == CornersAt(m, v) IN C # {} => LET h == CHOOSE x \in C : TRUE IN C \subseteq CornersReach(m, {h}, {h})
VertexOriented(m, v) == \A h \in Out(m, v) \cup In(m, v) : EdgeOriented(m, m.ed[h])
MeshManifold(m) == \A v \in m.V : VertexManifold(m, v)
MeshOriented(m) == \A e \in m.E : EdgeOriented(m, e)

-------------------------------------------------------------------------------
WF(m) ==
  /\ \A h \in m.H : /\ m.nx[h] \in m.H /\ m.sb[h] \in m.H /\ m.tl[h] \in m.V /\ m.ed[h] \in m.E
                    /\ IF m.fc[h] > 0 THEN m.fc[h] \in m.F ELSE -m.fc[h] \in m.B
  /\ \A v \in m.V : m.vh[v] \in m.H
  /\ \A e \in m.E : m.eh[e] \in m.H
  /\ \A f \in m.F : m.fh[f] \in m.H
  /\ \A b \in m.B : m.bh[b] \in m.H
check(name, ok) == IF ok THEN {} ELSE {name}
Invalid(m) ==
  check("next is a permutation", Cardinality({m.nx[h] : h \in m.H}) = Cardinality(m.H))
  \cup check("sibling is a permutation", Cardinality({m.sb[h] : h \in m.H}) = Cardinality(m.H))
  \cup check("each face is one next-orbit containing its representative",
        \A f \in m.F : m.fc[m.fh[f]] = f /\ SeqSet(Ring(m, m.fh[f])) = HeOfFace(m, f))
  \cup check("each boundary loop is one next-orbit containing its representative",
        \A b \in m.B : m.fc[m.bh[b]] = -b /\ SeqSet(Ring(m, m.bh[b])) = HeOfFace(m, -b))
  \cup check("each edge is one sibling-orbit containing its representative",
        \A e \in m.E : m.ed[m.eh[e]] = e /\ SeqSet(Siblings(m, m.eh[e])) = HeOfEdge(m, e))
  \cup check("orientation flags agree with end points",
        \A h \in m.H : LET g == m.eh[m.ed[h]] IN
           IF m.or[h] = m.or[g] THEN m.tl[h] = m.tl[g] /\ Tip(m, h) = Tip(m, g) ELSE m.tl[h] = Tip(m, g) /\ Tip(m, h) = m.tl[g])
  \cup check("vertex representative leaves the vertex", \A v \in m.V : m.tl[m.vh[v]] = v)
  \cup check("manifold edges have two opposite sides, an interior one in front",
        m.man => \A e \in m.E : Cardinality(HeOfEdge(m, e)) = 2 /\ EdgeOriented(m, e) /\ Interior(m, m.eh[e]))
  \cup check("manifold vertices have one fan, starting at the boundary",
        m.man => \A v \in m.V : /\ SeqSet(FanFrom(m, m.vh[v], m.vh[v], Cardinality(m.H))) = Out(m, v)
                                /\ (\E h \in Out(m, v) : ~Interior(m, h)) => Interior(m, m.vh[v]) /\ ~Interior(m, m.sb[m.vh[v]])
                                /\ Cardinality({h \in Out(m, v) : ~Interior(m, h)}) <= 1)
  \cup check("a general mesh built from polygons has no exterior halfedges", ~m.man => \A h \in m.H : Interior(m, h))

RECURSIVE Flood(_, _, _)
Flood(m, front, seen) ==
  LET T == {h \in m.H : \E g \in front : h = m.nx[g] \/ h = m.sb[g]} \ seen IN
  IF T = {} THEN seen ELSE Flood(m, T, seen \cup T)
RECURSIVE Components(_, _)
Components(m, left) == IF left = {} THEN 0 ELSE LET h == CHOOSE x \in left : TRUE IN 1 + Components(m, left \ Flood(m, {h}, {h}))
RECURSIVE VFlood(_, _, _)
VFlood(m, front, seen) == \* vertices joined by edges
  LET T == ({Tip(m, h) : h \in {x \in m.H : m.tl[x] \in front}} \cup {m.tl[h] : h \in {x \in m.H : Tip(m, x) \in front}}) \ seen IN
  IF T = {} THEN seen ELSE VFlood(m, T, seen \cup T)
RECURSIVE VComponents(_, _)
VComponents(m, left) == IF left = {} THEN 0 ELSE LET v == CHOOSE x \in left : TRUE IN 1 + VComponents(m, left \ VFlood(m, {v}, {v}))

-------------------------------------------------------------------------------
(* Edits of general meshes. Representatives are constrained by Invalid only. *)
CoreEq(a, b) ==
  /\ a.H = b.H /\ a.V = b.V /\ a.E = b.E /\ a.F = b.F /\ a.B = b.B
  /\ a.nx = b.nx /\ a.tl = b.tl /\ a.ed = b.ed /\ a.fc = b.fc
\* relative orientation of the halfedges sharing an edge
SameSides(a, b) == \A h, g \in a.H : a.ed[h] = a.ed[g] /\ h \in b.H /\ g \in b.H /\ b.ed[h] = b.ed[g] =>
                      (a.or[h] = a.or[g]) = (b.or[h] = b.or[g])
Same(a, b) == CoreEq(a, b) /\ SameSides(a, b)

InvertFaces(m, S) ==
  LET R == {h \in m.H : m.fc[h] \in S}
      pv == [y \in R |-> CHOOSE h \in R : m.nx[h] = y] IN
  [m EXCEPT !.nx = [h \in m.H |-> IF h \in R THEN pv[h] ELSE m.nx[h]],
            !.tl = [h \in m.H |-> IF h \in R THEN m.tl[m.nx[h]] ELSE m.tl[h]],
            !.or = [h \in m.H |-> IF h \in R THEN ~m.or[h] ELSE m.or[h]]]

FlipPossible(m, e, prevent) ==
  LET a1 == m.eh[e]  b1 == m.sb[a1] IN
  /\ Cardinality(HeOfEdge(m, e)) = 2 /\ IsTri(m, m.fc[a1]) /\ IsTri(m, m.fc[b1]) /\ m.fc[a1] # m.fc[b1]
  /\ prevent => LET c == m.tl[m.nx[m.nx[a1]]]  d == m.tl[m.nx[m.nx[b1]]] IN
                c # d /\ \A h \in m.H : ~(m.tl[h] = c /\ Tip(m, h) = d) /\ ~(m.tl[h] = d /\ Tip(m, h) = c)
FlipOriented(m, e) ==
  LET a1 == m.eh[e]  a2 == m.nx[a1]  a3 == m.nx[a2]
      b1 == m.sb[a1] b2 == m.nx[b1]  b3 == m.nx[b2] IN
  [m EXCEPT !.nx = [@ EXCEPT ![a1] = b3, ![b3] = a2, ![a2] = a1, ![b1] = a3, ![a3] = b2, ![b2] = b1],
            !.tl = [@ EXCEPT ![a1] = m.tl[a3], ![b1] = m.tl[b3]],
            !.fc = [@ EXCEPT ![a3] = m.fc[b1], ![b3] = m.fc[a1]]]
Flip(m, e) ==
  LET a1 == m.eh[e]  fa == m.fc[a1] IN
  IF m.or[a1] = m.or[m.sb[a1]] THEN InvertFaces(FlipOriented(InvertFaces(m, {fa}), e), {fa}) ELSE FlipOriented(m, e)

\* copy of face f: nh[h] is the copy of halfedge h
Duplicate(m, f, nf, nh) ==
  LET R == HeOfFace(m, f)  N == {nh[h] : h \in R}  old == [x \in N |-> CHOOSE h \in R : nh[h] = x] IN
  [m EXCEPT !.H = @ \cup N, !.F = @ \cup {nf},
            !.nx = [x \in N |-> nh[m.nx[old[x]]]] @@ @, !.tl = [x \in N |-> m.tl[old[x]]] @@ @,
            !.ed = [x \in N |-> m.ed[old[x]]] @@ @, !.fc = [x \in N |-> nf] @@ @, !.or = [x \in N |-> m.or[old[x]]] @@ @]

\* corner classes across the (manifold) edges
CornerClass(m, h) == CornersReach(m, {h}, {h})

\* halfedges reachable across two-sided edges
RECURSIVE PatchFrom(_, _, _)
PatchFrom(m, front, seen) ==
  LET T == {f \in m.F : \E h, g \in m.H : m.fc[g] = f /\ m.fc[h] \in front /\ h # g /\ m.ed[h] = m.ed[g]
                            /\ Cardinality(HeOfEdge(m, m.ed[h])) = 2} \ seen IN
  IF T = {} THEN seen ELSE PatchFrom(m, T, seen \cup T)
TwoSided(m) == {e \in m.E : Cardinality(HeOfEdge(m, e)) = 2}
\* can the faces of patch S be reversed so that all its two-sided edges are oriented?
OrientedBy(m, X, e) == LET h == m.eh[e]  g == m.sb[h] IN ((m.or[h] # m.or[g]) = ((m.fc[h] \in X) = (m.fc[g] \in X)))
Orientable(m, S) == LET D == {e \in TwoSided(m) : m.fc[m.eh[e]] \in S} IN \E X \in SUBSET S : \A e \in D : OrientedBy(m, X, e)

-------------------------------------------------------------------------------
(* Construction from polygons: P is a sequence of sequences of vertices, sides are <<face, position>> *)
SidesOf(P) == UNION {{<<f, k>> : k \in 1..Len(P[f])} : f \in 1..Len(P)}
STail(P, s) == P[s[1]][s[2]]
STip(P, s) == P[s[1]][(s[2] % Len(P[s[1]])) + 1]
VertsOf(P) == UNION {SeqSet(P[f]) : f \in 1..Len(P)}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Dense(P) == P # <<>> /\ VertsOf(P) = 1..MaxOf(VertsOf(P))
GeneralOK(P) == P # <<>> /\ (\A f \in 1..Len(P) : Len(P[f]) >= 3) /\ Dense(P)
\* glue: <<f, k>> -> the side it is glued to, or <<0, 0>>
NaturalGlue(P) == [s \in SidesOf(P) |->
   LET T == {t \in SidesOf(P) : STail(P, t) = STip(P, s) /\ STip(P, t) = STail(P, s)} IN
   IF T = {} THEN <<0, 0>> ELSE CHOOSE t \in T : TRUE]
PrevSide(P, s) == <<s[1], IF s[2] = 1 THEN Len(P[s[1]]) ELSE s[2] - 1>>
NextSide(P, s) == <<s[1], (s[2] % Len(P[s[1]])) + 1>>
\* corners <<f, k>> at one vertex are joined across their sides
RECURSIVE FanReach(_, _, _, _)
FanReach(P, G, front, seen) ==
  LET n == ({NextSide(P, G[s]) : s \in {x \in front : G[x] # <<0, 0>>}}
            \cup {G[PrevSide(P, s)] : s \in {x \in front : G[PrevSide(P, x)] # <<0, 0>>}}) \ seen IN
  IF n = {} THEN seen ELSE FanReach(P, G, n, seen \cup n)
OneFan(P, G) == \A v \in VertsOf(P) :
  LET C == {s \in SidesOf(P) : STail(P, s) = v}  c == CHOOSE x \in C : TRUE IN FanReach(P, G, {c}, {c}) = C
ManifoldOK(P) ==
  /\ GeneralOK(P)
  /\ \A s \in SidesOf(P) : STail(P, s) # STip(P, s)
  /\ \A s, t \in SidesOf(P) : s # t => ~(STail(P, s) = STail(P, t) /\ STip(P, s) = STip(P, t))
  /\ OneFan(P, NaturalGlue(P))
GlueShape(P, G) == Len(G) = Len(P) /\ \A f \in 1..Len(P) : Len(G[f]) = Len(P[f])
GlueFun(P, G) == [s \in SidesOf(P) |-> G[s[1]][s[2]]]
GlueOK(P, G) ==
  /\ GeneralOK(P) /\ GlueShape(P, G)
  /\ \A s \in SidesOf(P) : STail(P, s) # STip(P, s)
  /\ OneFan(P, GlueFun(P, G))
\* is m the mesh of P, its sides glued by G? he(s) is the halfedge of side s
MeshOfPolys(m, P, G, glued) ==
  LET ring == [f \in 1..Len(P) |-> Ring(m, m.fh[f])] IN
  IF m.F # 1..Len(P) \/ m.V # VertsOf(P) THEN {"faces and vertices keep their numbering"}
  ELSE IF ~(\A f \in 1..Len(P) : Len(ring[f]) = Len(P[f]) /\ \A k \in 1..Len(P[f]) : m.tl[ring[f][k]] = P[f][k])
  THEN {"faces list the given vertices in order"}
  ELSE LET he(s) == ring[s[1]][s[2]]  S == SidesOf(P) IN
       check("every side of a polygon is a halfedge", {h \in m.H : Interior(m, h)} = {he(s) : s \in S})
       \cup IF glued
            THEN check("sides are glued as described",
                   \A s \in S : IF G[s] = <<0, 0>> THEN ~Interior(m, m.sb[he(s)]) ELSE m.sb[he(s)] = he(G[s]))
            ELSE check("sides between the same vertices share an edge",
                   \A s, t \in S : (m.ed[he(s)] = m.ed[he(t)]) = ({STail(P, s), STip(P, s)} = {STail(P, t), STip(P, t)}))
=============================================================================
