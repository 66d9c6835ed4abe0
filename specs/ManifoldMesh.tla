---------------------------- MODULE ManifoldMesh ----------------------------
(* The connectivity of an oriented manifold halfedge mesh, and what every edit of
   ManifoldSurfaceMesh does to it.

   A mesh is a record m of
     H, V, E, F, B        sets of the live halfedges, vertices, edges, faces, boundary loops (positive integers)
     nx, tw, tl, ed, fc   functions on H: next, twin, tail vertex, edge, and face; fc[h] > 0 is an interior face,
                          fc[h] < 0 is the boundary loop -fc[h]
     vh, eh, fh, bh       the representative halfedge of every vertex, edge, face and boundary loop

   Every edit is a function of the mesh, its arguments, and the identifiers given to the elements it creates, so that
   the same definitions serve the exhaustive model (ManifoldModel) and trace validation (ManifoldTrace), where the
   identifiers are read off the recorded post-state.                                                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Range(f) == {f[x] : x \in DOMAIN f}

Interior(m, h) == m.fc[h] > 0

\* inverse of next
PrevFn(m) == [y \in {m.nx[h] : h \in m.H} |-> CHOOSE h \in m.H : m.nx[h] = y]
Pv(m, y) == CHOOSE h \in m.H : m.nx[h] = y

\* cyclic sequence of halfedges from h along next (at most Cardinality(H) steps)
RECURSIVE RingFrom(_, _, _, _)
RingFrom(m, h, start, n) ==
  IF n = 0 THEN <<h>>
  ELSE IF m.nx[h] = start THEN <<h>> ELSE <<h>> \o RingFrom(m, m.nx[h], start, n - 1)
Ring(m, h) == RingFrom(m, h, h, Cardinality(m.H))

RECURSIVE FanFrom(_, _, _, _)
FanFrom(m, h, start, n) ==
  LET g == m.nx[m.tw[h]] IN
  IF n = 0 THEN <<h>>
  ELSE IF g = start THEN <<h>> ELSE <<h>> \o FanFrom(m, g, start, n - 1)
\* outgoing halfedges of the tail of h, in clockwise rotation order
Fan(m, h) == FanFrom(m, h, h, Cardinality(m.H))

SeqSet(s) == {s[k] : k \in 1..Len(s)}
Degree(m, f) == Len(Ring(m, m.fh[f]))
HeOf(m, f) == {h \in m.H : m.fc[h] = f}
Outgoing(m, v) == {h \in m.H : m.tl[h] = v}
BdryVertex(m, v) == \E h \in Outgoing(m, v) : ~Interior(m, h)
BdryEdge(m, e) == \E h \in m.H : m.ed[h] = e /\ ~Interior(m, h)
Tip(m, h) == m.tl[m.tw[h]]
IsTri(m, f) == f > 0 /\ LET a == m.fh[f] IN m.nx[m.nx[m.nx[a]]] = a /\ m.nx[a] # a

-------------------------------------------------------------------------------
(* Well-formedness: every pointer names a live element (checked first, so that the rest can be evaluated). *)
WF(m) ==
  /\ DOMAIN m.nx = m.H
  /\ \A h \in m.H : /\ m.nx[h] \in m.H /\ m.tw[h] \in m.H /\ m.tl[h] \in m.V /\ m.ed[h] \in m.E
                    /\ IF m.fc[h] > 0 THEN m.fc[h] \in m.F ELSE -m.fc[h] \in m.B
  /\ \A v \in m.V : m.vh[v] \in m.H
  /\ \A e \in m.E : m.eh[e] \in m.H
  /\ \A f \in m.F : m.fh[f] \in m.H
  /\ \A b \in m.B : m.bh[b] \in m.H

(* The invariants of a valid oriented manifold halfedge mesh; the result names the ones that fail. *)
Invalid(m) ==
  LET out == [v \in m.V |-> {h \in m.H : m.tl[h] = v}]
      n == Cardinality(m.H)
  IN
  (IF \A h \in m.H : m.tw[h] # h /\ m.tw[m.tw[h]] = h THEN {} ELSE {"twins pair up"})
  \cup
  (IF Cardinality({m.nx[h] : h \in m.H}) = n THEN {} ELSE {"next is a permutation"})
  \cup
  (IF \A h \in m.H : m.fc[m.nx[h]] = m.fc[h] THEN {} ELSE {"next stays in the face"})
  \cup
  (IF \A h \in m.H : m.tl[m.nx[h]] = m.tl[m.tw[h]] THEN {} ELSE {"tip of a halfedge is the tail of its next"})
  \cup
  (IF /\ \A h \in m.H : m.ed[m.tw[h]] = m.ed[h]
      /\ \A e \in m.E : Cardinality({h \in m.H : m.ed[h] = e}) = 2 /\ m.ed[m.eh[e]] = e
   THEN {} ELSE {"an edge is a twin pair"})
  \cup
  (IF \A h \in m.H : Interior(m, h) \/ Interior(m, m.tw[h]) THEN {} ELSE {"an edge has an interior side"})
  \cup
  (IF \A e \in m.E : Interior(m, m.eh[e]) THEN {} ELSE {"a boundary edge is represented by its interior halfedge"})
  \cup
  (IF /\ \A f \in m.F : m.fc[m.fh[f]] = f /\ SeqSet(Ring(m, m.fh[f])) = {h \in m.H : m.fc[h] = f}
      /\ \A b \in m.B : m.fc[m.bh[b]] = -b /\ SeqSet(Ring(m, m.bh[b])) = {h \in m.H : m.fc[h] = -b}
   THEN {} ELSE {"each face or boundary loop is one next-orbit with a member as representative"})
  \cup
  (IF \A v \in m.V : m.tl[m.vh[v]] = v /\ SeqSet(Fan(m, m.vh[v])) = out[v]
   THEN {} ELSE {"the halfedges around a vertex form one fan containing its representative"})
  \cup
  (IF \A v \in m.V : (\E h \in out[v] : ~Interior(m, h)) =>
         Interior(m, m.vh[v]) /\ ~Interior(m, m.tw[m.vh[v]]) /\ Cardinality({h \in out[v] : ~Interior(m, h)}) = 1
   THEN {} ELSE {"a boundary vertex is represented by the interior halfedge on the boundary"})

Valid(m) == WF(m) /\ Invalid(m) = {}

-------------------------------------------------------------------------------
(* The part of the state an edit determines completely (representatives of vertices, faces and loops are constrained
   by Invalid and by the frame rule below instead).                                                                *)
CoreEq(a, b) ==
  /\ a.H = b.H /\ a.V = b.V /\ a.E = b.E /\ a.F = b.F /\ a.B = b.B
  /\ a.nx = b.nx /\ a.tw = b.tw /\ a.tl = b.tl /\ a.ed = b.ed /\ a.fc = b.fc

SameMesh(a, b) == CoreEq(a, b) /\ a.vh = b.vh /\ a.eh = b.eh /\ a.fh = b.fh /\ a.bh = b.bh

\* elements whose surroundings an edit leaves alone keep their representative halfedge
FrameOK(m, p) ==
  LET same == {h \in m.H \cap p.H : m.nx[h] = p.nx[h] /\ m.tl[h] = p.tl[h] /\ m.fc[h] = p.fc[h] /\ m.tw[h] = p.tw[h]}
  IN /\ \A v \in m.V \cap p.V :
          (\A h \in m.H : (m.tl[h] = v => h \in same /\ m.tw[h] \in same)) /\ (\A h \in p.H : p.tl[h] = v => h \in m.H)
             => p.vh[v] = m.vh[v]
     /\ \A f \in m.F \cap p.F : (\A h \in m.H : m.fc[h] = f => h \in same) /\ (\A h \in p.H : p.fc[h] = f => h \in m.H)
             => p.fh[f] = m.fh[f]
     /\ \A e \in m.E \cap p.E : m.eh[e] \in p.H /\ p.ed[m.eh[e]] = e => p.eh[e] = m.eh[e]

\* f extended/overridden by the function g
Up(f, g) == g @@ f
Minus(f, S) == [x \in DOMAIN f \ S |-> f[x]]

-------------------------------------------------------------------------------
(* flip: rotate the diagonal of a triangle pair clockwise *)
FlipPossible(m, e, prevent) ==
  LET a1 == m.eh[e]  a2 == m.nx[a1]  a3 == m.nx[a2]
      b1 == m.tw[a1] b2 == m.nx[b1]  b3 == m.nx[b2] IN
  /\ Interior(m, a1) /\ Interior(m, b1)
  /\ m.nx[a3] = a1 /\ a2 # a1 /\ m.nx[b3] = b1 /\ b2 # b1 /\ a3 # a1 /\ b3 # b1
  /\ a2 # b1 /\ b2 # a1
  /\ prevent => /\ m.tl[a3] # m.tl[b3]
                /\ \A h \in m.H : m.tl[h] = m.tl[a3] => m.tl[m.tw[h]] # m.tl[b3]

Flip(m, e) ==
  LET a1 == m.eh[e]  a2 == m.nx[a1]  a3 == m.nx[a2]
      b1 == m.tw[a1] b2 == m.nx[b1]  b3 == m.nx[b2]
      fa == m.fc[a1] fb == m.fc[b1] IN
  [m EXCEPT !.nx = Up(@, (a1 :> b3) @@ (b3 :> a2) @@ (a2 :> a1) @@ (b1 :> a3) @@ (a3 :> b2) @@ (b2 :> b1)),
            !.tl = Up(@, (a1 :> m.tl[a3]) @@ (b1 :> m.tl[b3])),
            !.fc = Up(@, (a3 :> fb) @@ (b3 :> fa)),
            !.fh = Up(@, (fa :> a1) @@ (fb :> b1)),
            !.vh = [v \in m.V |-> IF @[v] = a1 THEN b2 ELSE IF @[v] = b1 THEN a2 ELSE @[v]]]

(* insertVertexAlongEdge: new vertex v on e; e's halfedge keeps being the half that leaves v.
   a, b: the new halfedges (a into v, alongside e's halfedge; b its twin); en the new edge.         *)
InsertAlong(m, e, v, a, b, en) ==
  LET hA == m.eh[e]  hB == m.tw[hA]
      nxt == [h \in m.H |-> IF h = hB THEN b ELSE IF m.nx[h] = hA THEN a ELSE m.nx[h]]
      nb == IF m.nx[hB] = hA THEN a ELSE m.nx[hB] IN
  [m EXCEPT !.H = @ \cup {a, b}, !.V = @ \cup {v}, !.E = @ \cup {en},
            !.nx = Up(nxt, (a :> hA) @@ (b :> nb)),
            !.tw = Up(@, (a :> b) @@ (b :> a)),
            !.tl = Up(@, (a :> m.tl[hA]) @@ (hA :> v) @@ (b :> v)),
            !.ed = Up(@, (a :> en) @@ (b :> en)),
            !.fc = Up(@, (a :> m.fc[hA]) @@ (b :> m.fc[hB])),
            !.eh = Up(@, en :> a),
            !.vh = Up([w \in m.V |-> IF @[w] = hA THEN a ELSE @[w]], v :> hA)]

(* connectVertices(hA, hB): c from tail(hA) to hB stays in the old face, its twin d closes the new face fn *)
ConnectPossible(m, hA, hB) ==
  /\ m.fc[hA] = m.fc[hB] /\ hA # hB /\ m.nx[hA] # hB /\ m.nx[hB] # hA
RECURSIVE ArcFrom(_, _, _, _)
ArcFrom(m, h, stop, n) == IF h = stop \/ n = 0 THEN <<>> ELSE <<h>> \o ArcFrom(m, m.nx[h], stop, n - 1)
Connect(m, hA, hB, c, d, en, fn) ==
  LET moved == SeqSet(ArcFrom(m, hA, hB, Cardinality(m.H)))
      nxt == [h \in m.H |-> IF m.nx[h] = hA THEN c ELSE IF m.nx[h] = hB THEN d ELSE m.nx[h]]
      f == m.fc[hA] IN
  [m EXCEPT !.H = @ \cup {c, d}, !.E = @ \cup {en}, !.F = @ \cup {fn},
            !.nx = Up(nxt, (c :> hB) @@ (d :> hA)),
            !.tw = Up(@, (c :> d) @@ (d :> c)),
            !.tl = Up(@, (c :> m.tl[hA]) @@ (d :> m.tl[hB])),
            !.ed = Up(@, (c :> en) @@ (d :> en)),
            !.fc = Up([h \in m.H |-> IF h \in moved THEN fn ELSE @[h]], (c :> f) @@ (d :> fn)),
            !.eh = Up(@, en :> c),
            !.fh = Up(@, (f :> c) @@ (fn :> d))]

(* splitEdgeTriangular; the second group of identifiers is used only when the edge is interior *)
SplitPossible(m, e) == LET h == m.eh[e]  t == m.tw[h] IN
  IsTri(m, m.fc[h]) /\ (Interior(m, t) => IsTri(m, m.fc[t]) /\ m.fc[t] # m.fc[h])
SplitEdge(m, e, v, a, b, en, c1, d1, e1, f1, c2, d2, e2, f2) ==
  LET he == m.eh[e]
      m1 == InsertAlong(m, e, v, a, b, en)
      m2 == Connect(m1, he, m1.nx[m1.nx[he]], c1, d1, e1, f1) IN
  IF ~Interior(m, m.tw[he]) THEN m2
  ELSE LET h1 == m2.nx[m2.tw[he]] IN Connect(m2, h1, m2.nx[m2.nx[h1]], c2, d2, e2, f2)

(* insertVertex(f): lead[h] runs from the tip of h to the new vertex, trail[h] from it to the tail of h; face[h] is the
   triangle at h; one of the triangles re-uses f                                                                    *)
InsertVertex(m, f, v, lead, trail, ned, face) ==
  LET ring == {h \in m.H : m.fc[h] = f}
      L == {lead[h] : h \in ring}  T == {trail[h] : h \in ring}
      base(x) == CHOOSE h \in ring : lead[h] = x \/ trail[h] = x IN
  [m EXCEPT !.H = @ \cup L \cup T, !.V = @ \cup {v}, !.F = @ \cup {face[h] : h \in ring}, !.E = @ \cup {ned[h] : h \in ring},
     !.nx = [x \in m.H \cup L \cup T |->
               IF x \in ring THEN lead[x] ELSE IF x \in L THEN trail[base(x)] ELSE IF x \in T THEN base(x) ELSE m.nx[x]],
     !.tw = [x \in m.H \cup L \cup T |-> IF x \in L THEN trail[m.nx[base(x)]]
               ELSE IF x \in T THEN lead[CHOOSE g \in ring : m.nx[g] = base(x)] ELSE m.tw[x]],
     !.tl = [x \in m.H \cup L \cup T |-> IF x \in L THEN m.tl[m.nx[base(x)]] ELSE IF x \in T THEN v ELSE m.tl[x]],
     !.ed = [x \in m.H \cup L \cup T |-> IF x \in L THEN ned[base(x)]
               ELSE IF x \in T THEN ned[CHOOSE g \in ring : m.nx[g] = base(x)] ELSE m.ed[x]],
     !.fc = [x \in m.H \cup L \cup T |-> IF x \in ring THEN face[x] ELSE IF x \in L \cup T THEN face[base(x)] ELSE m.fc[x]],
     !.eh = Up(@, [y \in {ned[h] : h \in ring} |-> lead[CHOOSE h \in ring : ned[h] = y]]),
     !.fh = Up(@, [y \in {face[h] : h \in ring} |-> CHOOSE h \in ring : face[h] = y]),
     !.vh = Up(@, v :> trail[CHOOSE h \in ring : TRUE])]

(* removeEdge: union of the two faces, keeping the face of e's halfedge *)
RemoveEdgePossible(m, e) == ~BdryEdge(m, e) /\ m.fc[m.eh[e]] # m.fc[m.tw[m.eh[e]]]
                            /\ \E h \in m.H : m.ed[h] # e /\ m.fc[h] \in {m.fc[m.eh[e]], m.fc[m.tw[m.eh[e]]]}
\* next after the halfedges in D have been removed
RECURSIVE Skip(_, _, _, _)
Skip(m, h, D, n) == IF h \notin D \/ n = 0 THEN h ELSE Skip(m, m.nx[m.tw[h]], D, n - 1)
RemoveEdge(m, e) ==
  LET a == m.eh[e]  b == m.tw[a]  D == {a, b}  fk == m.fc[a]  fd == m.fc[b]  H2 == m.H \ D
      nxt == [h \in H2 |-> Skip(m, m.nx[h], D, 4)] IN
  [m EXCEPT !.H = H2, !.E = @ \ {e}, !.F = @ \ {fd},
     !.nx = nxt, !.tw = Minus(@, D), !.tl = Minus(@, D), !.ed = Minus(@, D),
     !.fc = [h \in H2 |-> IF m.fc[h] = fd THEN fk ELSE m.fc[h]],
     !.eh = Minus(@, {e}),
     !.fh = [f \in m.F \ {fd} |-> IF f = fk THEN CHOOSE h \in H2 : m.fc[h] \in {fk, fd} ELSE m.fh[f]],
     !.vh = [v \in m.V |-> IF @[v] \notin D THEN @[v] ELSE LET g == Skip(m, @[v], D, 4) IN g]]

(* removeVertex: all faces around v become the face of v's representative halfedge *)
RECURSIVE SpokeRing(_, _, _, _)
SpokeRing(m, h, g, n) == \* ring halfedges of the face of spoke h, starting with g = nx[h]
  IF n = 0 \/ m.nx[m.nx[g]] = h THEN <<g>> ELSE <<g>> \o SpokeRing(m, h, m.nx[g], n - 1)
DistinctSeq(s) == Cardinality(SeqSet(s)) = Len(s)
RECURSIVE FlatRing(_, _, _)
FlatRing(m, fan, k) == IF k > Len(fan) THEN <<>>
   ELSE SpokeRing(m, fan[k], m.nx[fan[k]], Cardinality(m.H)) \o FlatRing(m, fan, k + 1)
RemoveVertexPossible(m, v) ==
  LET fan == Fan(m, m.vh[v])
      spokeE == [k \in 1..Len(fan) |-> m.ed[fan[k]]] IN
  /\ ~BdryVertex(m, v) /\ DistinctSeq(spokeE)
  /\ LET ring == FlatRing(m, fan, 1) IN
       /\ DistinctSeq(spokeE \o [k \in 1..Len(ring) |-> m.ed[ring[k]]])
       /\ DistinctSeq(<<v>> \o [k \in 1..Len(ring) |-> m.tl[ring[k]]])
RemoveVertex(m, v) ==
  LET S == Outgoing(m, v)  D == S \cup {m.tw[h] : h \in S}  FD == {m.fc[h] : h \in S}
      fk == m.fc[m.vh[v]]  H2 == m.H \ D  DE == {m.ed[h] : h \in S} IN
  [m EXCEPT !.H = H2, !.E = @ \ DE, !.F = @ \ (FD \ {fk}), !.V = @ \ {v},
     !.nx = [h \in H2 |-> Skip(m, m.nx[h], D, Cardinality(m.H))],
     !.tw = Minus(@, D), !.tl = Minus(@, D), !.ed = Minus(@, D),
     !.fc = [h \in H2 |-> IF m.fc[h] \in FD THEN fk ELSE m.fc[h]],
     !.eh = Minus(@, DE),
     !.fh = [f \in m.F \ (FD \ {fk}) |-> IF f = fk THEN CHOOSE h \in H2 : m.fc[h] \in FD ELSE m.fh[f]],
     !.vh = [w \in m.V \ {v} |-> IF @[w] \notin D THEN @[w] ELSE m.nx[m.tw[@[w]]]]]

(* switchHalfedgeSides: the two halfedges of e exchange roles *)
Switch(m, e) ==
  LET a == m.eh[e]  b == m.tw[a]
      s(x) == IF x = a THEN b ELSE IF x = b THEN a ELSE x IN
  [m EXCEPT !.nx = [h \in m.H |-> s(m.nx[s(h)])], !.tl = [h \in m.H |-> m.tl[s(h)]], !.fc = [h \in m.H |-> m.fc[s(h)]],
     !.vh = [v \in m.V |-> s(@[v])], !.fh = [f \in m.F |-> s(@[f])], !.bh = [f \in m.B |-> s(@[f])]]

(* removeFaceAlongBoundary: f has exactly one side on the boundary and touches it nowhere else; its other sides become
   the boundary, and edges represented by a halfedge of f are mirrored so as to be represented from inside           *)
RECURSIVE SwitchAll(_, _)
SwitchAll(m, es) == IF es = {} THEN m ELSE LET e == CHOOSE x \in es : TRUE IN SwitchAll(Switch(m, e), es \ {e})
FaceBoundarySides(m, f) == {h \in m.H : m.fc[h] = f /\ ~Interior(m, m.tw[h])}
RemoveFacePossible(m, f) ==
  LET S == FaceBoundarySides(m, f) IN
  /\ Cardinality(S) = 1
  /\ LET hB == CHOOSE h \in S : TRUE  R == HeOf(m, f) IN
       \* tails of the other sides, the two ends of hB apart, must be distinct interior vertices
       /\ \A h \in R \ {hB, m.nx[hB]} : ~BdryVertex(m, m.tl[h])
       /\ \A h, g \in R \ {hB, m.nx[hB]} : h # g => m.tl[h] # m.tl[g]
       /\ m.nx[hB] # hB
RemoveFace(m, f) ==
  LET hB == CHOOSE h \in FaceBoundarySides(m, f) : TRUE
      hT == m.tw[hB]  R == HeOf(m, f) \ {hB}  D == {hB, hT}  H2 == m.H \ D  bl == m.fc[hT]
      hBP == Pv(m, hB)  hTP == Pv(m, hT)
      m1 == [m EXCEPT !.H = H2, !.E = @ \ {m.ed[hB]}, !.F = @ \ {f},
         !.nx = [h \in H2 |-> IF h = hBP THEN m.nx[hT] ELSE IF h = hTP THEN m.nx[hB] ELSE m.nx[h]],
         !.tw = Minus(@, D), !.tl = Minus(@, D), !.ed = Minus(@, D),
         !.fc = [h \in H2 |-> IF h \in R THEN bl ELSE m.fc[h]],
         !.eh = Minus(@, {m.ed[hB]}),
         !.fh = Minus(@, {f}),
         !.bh = [@ EXCEPT ![-bl] = m.nx[hT]],
         \* the tail of every new exterior halfedge is represented by the halfedge next to it, inside
         !.vh = [v \in m.V |-> IF \E h \in R : m.tl[m.tw[h]] = v THEN m.tw[CHOOSE h \in R : m.tl[m.tw[h]] = v] ELSE @[v]]]
  IN SwitchAll(m1, {m1.ed[h] : h \in {x \in R : m1.eh[m1.ed[x]] = x}})

(* separateEdge. n1 takes the place of e's twin in its face, n2 is n1's new exterior twin, and e's old twin becomes
   exterior. With both ends interior a new two-sided boundary loop bn appears; with one end on the boundary that end
   is doubled: the copy vn takes the halfedges on the side of e's halfedge he (read from the boundary end).          *)
SeparateCase(m, e) ==
  LET h == m.eh[e]  a == m.tl[h]  b == m.tl[m.tw[h]] IN
  IF BdryEdge(m, e) THEN "refuse"
  ELSE IF a = b THEN "refuse"
  ELSE IF BdryVertex(m, a) /\ BdryVertex(m, b) THEN "refuse"
  ELSE IF ~BdryVertex(m, a) /\ ~BdryVertex(m, b) THEN "slit" ELSE "open"
Separate1(m, e, n1, n2, en, bn) ==
  LET he == m.eh[e]  hT == m.tw[he]  vA == m.tl[he]  vB == m.tl[hT]  fB == m.fc[hT] IN
  [m EXCEPT !.H = @ \cup {n1, n2}, !.E = @ \cup {en}, !.B = @ \cup {bn},
     !.nx = Up([h \in m.H |-> IF m.nx[h] = hT THEN n1 ELSE IF h = hT THEN n2 ELSE m.nx[h]],
               (n2 :> hT) @@ (n1 :> (IF m.nx[hT] = hT THEN n1 ELSE m.nx[hT]))),
     !.tw = Up(@, (n1 :> n2) @@ (n2 :> n1)),
     !.tl = Up(@, (n1 :> vB) @@ (n2 :> vA)),
     !.ed = Up(@, (n1 :> en) @@ (n2 :> en)),
     !.fc = Up(@, (hT :> -bn) @@ (n1 :> fB) @@ (n2 :> -bn)),
     !.eh = Up(@, en :> n1), !.bh = Up(@, bn :> hT),
     !.fh = [@ EXCEPT ![fB] = n1],
     !.vh = [@ EXCEPT ![vA] = he, ![vB] = n1]]
RECURSIVE FanUntilExterior(_, _, _)
FanUntilExterior(m, h, n) == \* rotate h -> twin(prev(h)) up to and including the exterior halfedge
  IF n = 0 \/ ~Interior(m, h) THEN <<h>> ELSE <<h>> \o FanUntilExterior(m, m.tw[Pv(m, h)], n - 1)
Separate2(m, e, vn, n1, n2, en) ==
  LET h0 == m.eh[e]
      he == IF BdryVertex(m, m.tl[h0]) THEN h0 ELSE m.tw[h0]
      hT == m.tw[he]  vA == m.tl[he]  vB == m.tl[hT]  fB == m.fc[hT]
      x == CHOOSE h \in m.H : m.tl[h] = vA /\ ~Interior(m, h)      \* exterior halfedge leaving vA
      y == Pv(m, x)  bl == m.fc[x]
      moved == SeqSet(FanUntilExterior(m, he, Cardinality(m.H)))
      m1 == [m EXCEPT !.H = @ \cup {n1, n2}, !.E = @ \cup {en}, !.V = @ \cup {vn},
         !.nx = Up([h \in m.H |-> IF m.nx[h] = hT THEN n1 ELSE IF h = hT THEN x ELSE IF h = y THEN n2 ELSE m.nx[h]],
                   (n2 :> hT) @@ (n1 :> (IF m.nx[hT] = hT THEN n1 ELSE m.nx[hT]))),
         !.tw = Up(@, (n1 :> n2) @@ (n2 :> n1)),
         !.tl = Up([h \in m.H |-> IF h \in moved THEN vn ELSE m.tl[h]], (n1 :> vB) @@ (n2 :> vA)),
         !.ed = Up(@, (n1 :> en) @@ (n2 :> en)),
         !.fc = Up(@, (hT :> bl) @@ (n1 :> fB) @@ (n2 :> bl)),
         !.eh = Up(@, en :> n1),
         !.fh = [@ EXCEPT ![fB] = n1],
         !.vh = Up([@ EXCEPT ![vB] = n1], vn :> he)]
  IN IF m.eh[e] = hT THEN Switch(m1, e) ELSE m1

(* collapseEdgeTriangular, on neighbourhoods that are triangulated simplicial complexes. g is the halfedge of e whose
   tail disappears into its tip (or, for an ear, see EarCollapse).                                                   *)
SimplicialStar(m, v) ==
  LET O == Outgoing(m, v) IN
  /\ \A h \in O : /\ (Interior(m, h) => IsTri(m, m.fc[h]))
                  /\ m.tl[m.tw[h]] # v
                  /\ \A g \in O : g # h => m.tl[m.tw[g]] # m.tl[m.tw[h]]
  /\ Cardinality(O) >= 2 /\ ((\A h \in O : Interior(m, h)) => Cardinality(O) >= 3)
\* the region an edge collapse looks at: the stars of both ends and of every neighbour
CollapseDomain(m, e) ==
  LET a == m.tl[m.eh[e]]  b == m.tl[m.tw[m.eh[e]]]
      N == {a, b} \cup {m.tl[m.tw[h]] : h \in {x \in m.H : m.tl[x] \in {a, b}}} IN
  \A v \in N : SimplicialStar(m, v)
CollapsePossible(m, e) ==
  LET h == m.eh[e]  t == m.tw[h]  a == m.tl[h]  b == m.tl[t]
      nbr(v) == {m.tl[m.tw[g]] : g \in Outgoing(m, v)}
      opp == {m.tl[m.nx[m.nx[h]]]} \cup (IF Interior(m, t) THEN {m.tl[m.nx[m.nx[t]]]} ELSE {}) IN
  /\ nbr(a) \cap nbr(b) = opp                                   \* otherwise the result would pinch
  /\ Interior(m, t) => ~(BdryVertex(m, a) /\ BdryVertex(m, b))
  /\ ~Interior(m, t) => m.nx[m.nx[m.nx[t]]] # t                 \* keep boundary loops at least three long
Collapse(m, g) == \* merge the tail of g into its tip
  LET A0 == g  A1 == m.nx[A0]  A2 == m.nx[A1]  C2 == m.tw[A2]
      B0 == m.tw[g]  B1 == m.nx[B0]  B2 == m.nx[B1]  D1 == m.tw[B1]
      inner == Interior(m, B0)
      vA == m.tl[A0]  vB == m.tl[B0]
      D == {A0, A2, B0, C2} \cup (IF inner THEN {B1, D1} ELSE {})
      s(x) == IF x = C2 THEN A1 ELSE IF inner /\ x = D1 THEN B2 ELSE x
      si(x) == IF x = A1 THEN C2 ELSE IF inner /\ x = B2 THEN D1 ELSE x
      H2 == m.H \ D
      FD == {m.fc[A0]} \cup (IF inner THEN {m.fc[B0]} ELSE {})
      ED == {m.ed[x] : x \in {A0, A2} \cup (IF inner THEN {B1} ELSE {})}
      step(x) == IF ~inner /\ x = B0 THEN m.nx[B0] ELSE x       \* drop the exterior side of a boundary edge
      nxt == [y \in H2 |-> s(step(m.nx[si(y)]))]
      fcc == [y \in H2 |-> m.fc[si(y)]]
      tll == [y \in H2 |-> IF m.tl[y] = vA THEN vB ELSE m.tl[y]]
      fix(x, ok) == IF x \in H2 /\ ok THEN x ELSE 0 IN
  [m EXCEPT !.H = H2, !.V = @ \ {vA}, !.E = @ \ ED, !.F = @ \ FD,
     !.nx = nxt, !.tw = Minus(@, D), !.tl = tll, !.ed = Minus(@, D), !.fc = fcc,
     !.eh = Minus(@, ED),
     !.fh = [f \in m.F \ FD |-> CHOOSE h \in H2 : fcc[h] = f],
     !.bh = [b \in m.B |-> CHOOSE h \in H2 : fcc[h] = -b],
     !.vh = [v \in m.V \ {vA} |->
        IF \E h \in H2 : tll[h] = v /\ fcc[h] > 0 /\ fcc[m.tw[h]] < 0
        THEN CHOOSE h \in H2 : tll[h] = v /\ fcc[h] > 0 /\ fcc[m.tw[h]] < 0
        ELSE CHOOSE h \in H2 : tll[h] = v]]
\* the halfedge whose tail vanishes
CollapseFrom(m, e) ==
  LET h == m.eh[e] IN
  IF Interior(m, m.tw[h]) /\ BdryVertex(m, m.tl[h]) THEN m.tw[h] ELSE h
\* a boundary edge whose tail has degree two is an ear: its tip is merged into its tail and the edge from the tip to
\* the opposite vertex disappears (the mirror image of Collapse)
IsEar(m, e) == LET h == m.eh[e] IN ~Interior(m, m.tw[h]) /\ Cardinality(Outgoing(m, m.tl[h])) = 2
EarCollapse(m, e) ==
  LET A0 == m.eh[e]  A1 == m.nx[A0]  A2 == m.nx[A1]  B0 == m.tw[A0]  D1 == m.tw[A1]
      vA == m.tl[A0]  vB == m.tl[A1]
      D == {A0, B0, A1, D1}
      H2 == m.H \ D
      s(x) == IF x = D1 THEN A2 ELSE x
      si(x) == IF x = A2 THEN D1 ELSE x
      step(x) == IF x = B0 THEN m.nx[B0] ELSE x
      fcc == [y \in H2 |-> m.fc[si(y)]]
      tll == [y \in H2 |-> IF m.tl[y] = vB THEN vA ELSE m.tl[y]] IN
  [m EXCEPT !.H = H2, !.V = @ \ {vB}, !.E = @ \ {m.ed[A0], m.ed[A1]}, !.F = @ \ {m.fc[A0]},
     !.nx = [y \in H2 |-> s(step(m.nx[si(y)]))], !.tw = Minus(@, D), !.tl = tll, !.ed = Minus(@, D), !.fc = fcc,
     !.eh = Minus(@, {m.ed[A0], m.ed[A1]}),
     !.fh = [f \in m.F \ {m.fc[A0]} |-> CHOOSE h \in H2 : fcc[h] = f],
     !.bh = [b \in m.B |-> CHOOSE h \in H2 : fcc[h] = -b],
     !.vh = [v \in m.V \ {vB} |->
        IF \E h \in H2 : tll[h] = v /\ fcc[h] > 0 /\ fcc[m.tw[h]] < 0
        THEN CHOOSE h \in H2 : tll[h] = v /\ fcc[h] > 0 /\ fcc[m.tw[h]] < 0
        ELSE CHOOSE h \in H2 : tll[h] = v]]

(* compress: dense renumbering that preserves order *)
Rank(S) == [x \in S |-> Cardinality({y \in S : y <= x})]
Compressed(m) == m.H = 1..Cardinality(m.H) /\ m.V = 1..Cardinality(m.V) /\ m.E = 1..Cardinality(m.E)
                 /\ m.F = 1..Cardinality(m.F) /\ m.B = 1..Cardinality(m.B)
Renumber(m) ==
  LET rH == Rank(m.H) rV == Rank(m.V) rE == Rank(m.E) rF == Rank(m.F) rB == Rank(m.B)
      inv(r) == [k \in Range(r) |-> CHOOSE x \in DOMAIN r : r[x] = k]
      iH == inv(rH)  iV == inv(rV)  iE == inv(rE)  iF == inv(rF)  iB == inv(rB) IN
  [H |-> Range(rH), V |-> Range(rV), E |-> Range(rE), F |-> Range(rF), B |-> Range(rB),
   nx |-> [h \in Range(rH) |-> rH[m.nx[iH[h]]]], tw |-> [h \in Range(rH) |-> rH[m.tw[iH[h]]]],
   tl |-> [h \in Range(rH) |-> rV[m.tl[iH[h]]]], ed |-> [h \in Range(rH) |-> rE[m.ed[iH[h]]]],
   fc |-> [h \in Range(rH) |-> IF m.fc[iH[h]] > 0 THEN rF[m.fc[iH[h]]] ELSE -rB[-m.fc[iH[h]]]],
   vh |-> [v \in Range(rV) |-> rH[m.vh[iV[v]]]], eh |-> [e \in Range(rE) |-> rH[m.eh[iE[e]]]],
   fh |-> [f \in Range(rF) |-> rH[m.fh[iF[f]]]], bh |-> [b \in Range(rB) |-> rH[m.bh[iB[b]]]]]

-------------------------------------------------------------------------------
(* Construction from a list of polygons (sequences of vertices 1..n); "" if it describes an oriented manifold *)
PolySides(P) == {<<f, k>> : f \in 1..Len(P), k \in 1..20} 
SidesOf(P) == UNION {{<<f, k>> : k \in 1..Len(P[f])} : f \in 1..Len(P)}
SideTail(P, s) == P[s[1]][s[2]]
SideTip(P, s) == P[s[1]][(s[2] % Len(P[s[1]])) + 1]
=============================================================================
