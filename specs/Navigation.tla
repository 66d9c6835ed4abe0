---------------------------- MODULE Navigation ----------------------------
(* What the navigation interface must report about a mesh (record m of GeneralMesh) in a recorded observation n, whose
   lists follow the iteration order of the recorded state s.                                                       *)
EXTENDS GeneralMesh

Count(L, x) == Cardinality({k \in DOMAIN L : L[k] = x})
\* L lists fn(h) for every h in S, in any order
Bag(L, S, fn(_)) == Len(L) = Cardinality(S) /\ \A x \in {fn(h) : h \in S} : Count(L, x) = Cardinality({h \in S : fn(h) = x})
Map(L, fn(_)) == [k \in 1..Len(L) |-> fn(L[k])]
Id(x) == x

\* the fan of a vertex of a manifold mesh, in order
FanOf(m, v) == FanFrom(m, m.vh[v], m.vh[v], Cardinality(m.H))
FanInOf(m, v) == LET g == Pv(m, m.vh[v]) IN FanInFrom(m, g, g, Cardinality(m.H))
Inner(m, L) == SelectSeq(L, LAMBDA h : Interior(m, h))

RECURSIVE NeighboursFrom(_, _, _)
NeighboursFrom(m, ring, k) ==
  IF k > Len(ring) THEN <<>>
  ELSE Map(Inner(m, Tail(Siblings(m, ring[k]))), LAMBDA h : m.fc[h]) \o NeighboursFrom(m, ring, k + 1)

\* canonical ends of edges at v: <<halfedge, is it the tail end>>
Ends(m, v) == {<<m.eh[e], TRUE>> : e \in {x \in m.E : m.tl[m.eh[x]] = v}}
         \cup {<<m.eh[e], FALSE>> : e \in {x \in m.E : Tip(m, m.eh[x]) = v}}
OtherEnd(m, x) == IF x[2] THEN Tip(m, x[1]) ELSE m.tl[x[1]]

VertexNav(m, v, n, k) ==
  LET O == Out(m, v)  I == In(m, v)  C == {h \in O : Interior(m, h)}  fan == FanOf(m, v) IN
  IF m.man
  THEN check("outgoing halfedges in order", n.vO[k] = fan)
       \cup check("incoming halfedges in order", n.vI[k] = FanInOf(m, v))
       \cup check("adjacent vertices in order", n.vV[k] = Map(fan, LAMBDA h : Tip(m, h)))
       \cup check("adjacent edges in order", n.vE[k] = Map(fan, LAMBDA h : m.ed[h]))
       \cup check("adjacent faces in order", n.vF[k] = Map(Inner(m, fan), LAMBDA h : m.fc[h]))
       \cup check("adjacent corners in order", n.vC[k] = Inner(m, fan))
       \cup check("vertex degree", n.vd[k] = Len(fan) /\ n.vfd[k] = Len(Inner(m, fan)))
       \cup check("vertex on the boundary", n.vb[k] = (\E h \in O : ~Interior(m, h)) /\ n.vbs[k] = n.vb[k])
       \cup check("vertex manifold", n.vm[k] /\ n.vo[k] /\ n.vms[k])
  ELSE check("outgoing halfedges", Bag(n.vO[k], O, Id)) \cup check("incoming halfedges", Bag(n.vI[k], I, Id))
       \cup check("adjacent vertices", Bag(n.vV[k], Ends(m, v), LAMBDA x : OtherEnd(m, x)))
       \cup check("adjacent edges", Bag(n.vE[k], Ends(m, v), LAMBDA x : m.ed[x[1]]))
       \cup check("adjacent faces", Bag(n.vF[k], C, LAMBDA h : m.fc[h]))
       \cup check("adjacent corners", Bag(n.vC[k], C, Id))
       \cup check("vertex degree", n.vd[k] = Cardinality(Ends(m, v)) /\ n.vfd[k] = Cardinality(C))
       \cup check("vertex on the boundary", n.vb[k] = (\E h \in O \cup I : EdgeBoundary(m, m.ed[h])) /\ n.vbs[k] = n.vb[k])
       \cup check("vertex manifold", n.vm[k] = VertexManifold(m, v) /\ n.vms[k] = n.vm[k])
       \cup check("vertex manifold and oriented", n.vo[k] = (VertexManifold(m, v) /\ VertexOriented(m, v)))

DiamondOK(m, e, d) ==
  LET a == m.eh[e]  b == m.sb[a] IN
  IF Cardinality(HeOfEdge(m, e)) = 2 /\ Interior(m, a) /\ Interior(m, b) /\ IsTri(m, m.fc[a]) /\ IsTri(m, m.fc[b])
  THEN d = <<m.nx[a], m.nx[m.nx[a]], m.nx[b], m.nx[m.nx[b]]>> ELSE d = <<>>
EdgeNav(m, e, n, k) ==
  LET h == m.eh[e]  sibs == Siblings(m, h)  a == m.tl[h]  b == Tip(m, h) IN
  check("halfedges of an edge", n.eH[k] = sibs) \cup check("interior halfedges of an edge", n.eI[k] = Inner(m, sibs))
  \cup check("faces of an edge", n.eF[k] = Map(Inner(m, sibs), LAMBDA x : m.fc[x]))
  \cup check("vertices of an edge", n.eV[k] = <<a, b, a, b>>)
  \cup check("other vertex of an edge", n.eO[k] = <<b, a>>)
  \cup check("diamond of an edge", DiamondOK(m, e, n.eD[k]))
  \cup check("edge degree", n.ed[k] = Len(Inner(m, sibs)))
  \cup check("edge on the boundary", n.eb[k] = EdgeBoundary(m, e))
  \cup check("edge manifold", n.em[k] = EdgeManifold(m, e) /\ n.ems[k] = n.em[k])
  \cup check("edge oriented", n.eo[k] = EdgeOriented(m, e) /\ n.eos[k] = n.eo[k])
FaceNav(m, f, n, k) ==
  LET ring == Ring(m, m.fh[f]) IN
  check("halfedges of a face in order", n.fH[k] = ring) \cup check("vertices of a face in order", n.fV[k] = Map(ring, LAMBDA h : m.tl[h]))
  \cup check("edges of a face in order", n.fE[k] = Map(ring, LAMBDA h : m.ed[h])) \cup check("corners of a face in order", n.fC[k] = ring)
  \cup check("neighbouring faces in order", n.fF[k] = NeighboursFrom(m, ring, 1))
  \cup check("face degree", n.fd[k] = Len(ring)) \cup check("face is a triangle", n.ft[k] = (Len(ring) = 3))
  \cup check("face is not a boundary loop", ~n.fl[k])
LoopNav(m, b, n, k) ==
  LET ring == Ring(m, m.bh[b]) IN
  check("boundary loop in order", n.bH[k] = ring /\ n.bV[k] = Map(ring, LAMBDA h : m.tl[h]) /\ n.bE[k] = Map(ring, LAMBDA h : m.ed[h])
                                  /\ n.bd[k] = Len(ring))
HalfedgeNav(m, h, n, k) ==
  check("previous halfedge in the face", n.hp[k] = Pv(m, h))
  \cup check("previous halfedge, found around the vertex", m.man => n.hpv[k] = Pv(m, h))
  \cup check("ends of a halfedge", n.tip[k] = Tip(m, h) /\ n.tail[k] = m.tl[h])
  \cup check("interior halfedge", n.hi[k] = Interior(m, h))
  \cup check("corner of a halfedge", n.hc[k] = h)
ConnOK(m, c) ==
  IF c[3] = 0 THEN \A h \in m.H : ~(m.tl[h] = c[1] /\ Tip(m, h) = c[2]) /\ ~(m.tl[h] = c[2] /\ Tip(m, h) = c[1])
  ELSE c[3] \in m.E /\ LET h == m.eh[c[3]] IN <<m.tl[h], Tip(m, h)>> \in {<<c[1], c[2]>>, <<c[2], c[1]>>}

NavFails(s) ==
  LET m == MeshOf(s)  n == s.n
      iH == SelectSeq(s.H, LAMBDA h : Interior(m, h)) IN
  UNION {VertexNav(m, s.V[k], n, k) : k \in 1..Len(s.V)}
  \cup UNION {EdgeNav(m, s.E[k], n, k) : k \in 1..Len(s.E)}
  \cup UNION {FaceNav(m, s.F[k], n, k) : k \in 1..Len(s.F)}
  \cup UNION {LoopNav(m, s.B[k], n, k) : k \in 1..Len(s.B)}
  \cup UNION {HalfedgeNav(m, s.H[k], n, k) : k \in 1..Len(s.H)}
  \cup check("corners", n.cr = Map(iH, LAMBDA h : <<h, m.tl[h], m.fc[h]>>))
  \cup check("connecting edge", \A k \in 1..Len(n.cn) : ConnOK(m, n.cn[k]))
  \cup check("mesh is manifold", n.isM = (m.man \/ MeshManifold(m)))
  \cup check("mesh is edge manifold", n.isE = (\A e \in m.E : EdgeManifold(m, e)))
  \cup check("mesh is oriented", n.isO = MeshOriented(m))
  \cup check("mesh is triangular", n.isT = (\A f \in m.F : IsTri(m, f)))
  \cup check("mesh has boundary", n.hasB = (\E e \in m.E : EdgeBoundary(m, e)))
=============================================================================
