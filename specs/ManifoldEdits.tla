---------------------------- MODULE ManifoldEdits ----------------------------
(* Recorded meshes and recorded edits: how a logged state is read as a mesh of ManifoldMesh, and which results and
   post-states an edit e = [op, a (arguments), r (results), x (exception)] of a mesh q is allowed to have.            *)
EXTENDS ManifoldMesh

MeshOf(s) ==
  LET H == SeqSet(s.H) V == SeqSet(s.V) E == SeqSet(s.E) F == SeqSet(s.F) B == SeqSet(s.B) IN
  [H |-> H, V |-> V, E |-> E, F |-> F, B |-> B,
   nx |-> [h \in H |-> s.nx[h]], tw |-> [h \in H |-> s.tw[h]], tl |-> [h \in H |-> s.tl[h]],
   ed |-> [h \in H |-> s.ed[h]], fc |-> [h \in H |-> s.fc[h]],
   vh |-> [v \in V |-> s.vh[v]], eh |-> [e \in E |-> s.eh[e]], fh |-> [f \in F |-> s.fh[f]], bh |-> [b \in B |-> s.bh[b]]]

\* iteration visits each element once, in increasing order of index
Increasing(q) == \A k \in 1..(Len(q) - 1) : q[k] < q[k + 1]
IterationOK(s) == Increasing(s.H) /\ Increasing(s.V) /\ Increasing(s.E) /\ Increasing(s.F) /\ Increasing(s.B)

-------------------------------------------------------------------------------
(* Effects. q is the mesh before, p the one after; each operator returns the names of violated conditions.          *)
New(q, p, h) == h \in p.H /\ h \notin q.H

RefusalExpected(q, e) ==
  CASE e.op = "flip" -> ~FlipPossible(q, e.a[1], e.a[2] = 1)
    [] e.op = "insVE" -> FALSE
    [] e.op = "split" -> ~SplitPossible(q, e.a[1])
    [] e.op = "conn" -> ~ConnectPossible(q, e.a[1], e.a[2])
    [] e.op = "insV" -> FALSE
    [] e.op = "tri" -> e.a[1] < 0
    [] e.op = "collapse" -> ~SplitPossible(q, e.a[1]) \/ ~CollapsePossible(q, e.a[1])
    [] e.op = "rmE" -> ~RemoveEdgePossible(q, e.a[1])
    [] e.op = "rmV" -> ~RemoveVertexPossible(q, e.a[1])
    [] e.op = "rmF" -> ~RemoveFacePossible(q, e.a[1])
    [] e.op = "sep" -> SeparateCase(q, e.a[1]) = "refuse"
    [] e.op = "switch" -> FALSE
    [] e.op = "compress" -> FALSE
    [] OTHER -> FALSE

\* an exception where a documented requirement is broken, a null/false result where the edit is merely impossible
ExceptionExpected(q, e) ==
  CASE e.op = "split" -> ~SplitPossible(q, e.a[1])
    [] e.op = "conn" -> ~ConnectPossible(q, e.a[1], e.a[2])
    [] e.op = "tri" -> e.a[1] < 0
    [] e.op = "collapse" -> ~SplitPossible(q, e.a[1])
    [] e.op = "rmE" -> BdryEdge(q, e.a[1])
    [] e.op = "rmV" -> BdryVertex(q, e.a[1])
    [] e.op = "rmF" -> FaceBoundarySides(q, e.a[1]) = {}
    [] e.op = "sep" -> SeparateCase(q, e.a[1]) = "refuse"
    [] OTHER -> FALSE

\* did the call report failure?
Refused(e) == e.x # "" \/ (e.op \in {"flip", "rmE", "rmV", "rmF", "collapse"} /\ e.r[1] = 0)

(* The mesh that must result from a successful edit; identifiers of created elements are found from the result the
   call returned by walking the recorded mesh.                                                                      *)
Expected(q, p, e) ==
  LET A == e.a  R == e.r IN
  CASE e.op = "flip" -> Flip(q, A[1])
    [] e.op = "insVE" -> LET r == R[1]  a == Pv(p, r) IN InsertAlong(q, A[1], p.tl[r], a, p.tw[a], p.ed[a])
    [] e.op = "split" ->
         LET r == R[1]  d1 == Pv(p, r)  c1 == p.tw[d1]  a == Pv(p, c1)  b == p.tw[a] IN
         IF Interior(q, q.tw[q.eh[A[1]]])
         THEN LET d2 == Pv(p, b)  c2 == p.tw[d2] IN
              SplitEdge(q, A[1], p.tl[r], a, b, p.ed[a], c1, d1, p.ed[d1], p.fc[r], c2, d2, p.ed[d2], p.fc[b])
         ELSE SplitEdge(q, A[1], p.tl[r], a, b, p.ed[a], c1, d1, p.ed[d1], p.fc[r], 0, 0, 0, 0)
    [] e.op = "conn" -> LET c == R[1] IN Connect(q, A[1], A[2], c, p.tw[c], p.ed[c], p.fc[p.tw[c]])
    [] e.op = "insV" ->
         LET ring == HeOf(q, A[1]) IN
         InsertVertex(q, A[1], R[1], [h \in ring |-> p.nx[h]], [h \in ring |-> p.nx[p.nx[h]]],
                      [h \in ring |-> p.ed[p.nx[h]]], [h \in ring |-> p.fc[h]])
    [] e.op = "rmE" -> RemoveEdge(q, A[1])
    [] e.op = "rmV" -> RemoveVertex(q, A[1])
    [] e.op = "rmF" -> RemoveFace(q, A[1])
    [] e.op = "switch" -> Switch(q, A[1])
    [] e.op = "collapse" -> IF IsEar(q, A[1]) THEN EarCollapse(q, A[1]) ELSE Collapse(q, CollapseFrom(q, A[1]))
    [] e.op = "compress" -> Renumber(q)
    [] e.op = "sep" ->
         LET h == q.eh[A[1]]
             slit == SeparateCase(q, A[1]) = "slit"
             \* the boundary end's side keeps its halfedge, the other side gets the new one
             openSwap == ~slit /\ ~BdryVertex(q, q.tl[h])
             n1 == IF openSwap THEN R[1] ELSE R[2] IN
         IF slit THEN Separate1(q, A[1], n1, p.tw[n1], p.ed[n1], -p.fc[p.tw[n1]])
         ELSE LET he == IF openSwap THEN q.tw[h] ELSE h IN
              \* the copy of the boundary end is the tail, afterwards, of the halfedge where `he` was
              Separate2(q, A[1], LET k == IF openSwap THEN R[2] ELSE R[1] IN p.tl[k], n1, p.tw[n1], p.ed[n1])
    [] OTHER -> q

(* Triangulation is only required to cut the face along diagonals: q with new edges inside face f, all parts triangles *)
TriangulateFails(q, p, f, R) ==
  LET ring == HeOf(q, f)  n == Cardinality(ring)  D == p.H \ q.H
      part == {p.fc[h] : h \in ring \cup D} IN
  (IF /\ q.H \subseteq p.H /\ q.V = p.V /\ q.E \subseteq p.E /\ q.F \subseteq p.F /\ q.B = p.B
      /\ Cardinality(D) = 2 * Cardinality(p.E \ q.E)
      /\ \A h \in q.H : p.tl[h] = q.tl[h] /\ p.tw[h] = q.tw[h] /\ p.ed[h] = q.ed[h]
      /\ \A h \in q.H \ ring : p.nx[h] = q.nx[h] /\ p.fc[h] = q.fc[h]
      /\ \A h \in ring : Skip(p, p.nx[h], D, Cardinality(p.H)) = q.nx[h]
      /\ \A h \in D : p.ed[h] \notin q.E
   THEN {} ELSE {"triangulation only adds diagonals"})
  \cup
  (IF n <= 3 THEN (IF CoreEq(q, p) /\ R = <<f>> THEN {} ELSE {"small faces are left alone"})
   ELSE IF /\ Len(R) = n - 2 /\ R[1] = f /\ SeqSet(R) = part /\ DistinctSeq(R)
           /\ SeqSet(R) \ {f} = p.F \ q.F
           /\ \A g \in SeqSet(R) : Degree(p, g) = 3
        THEN {} ELSE {"returned faces are the triangles of the face"})

\* the element a successful call returned
ResultOK(q, p, e) ==
  LET A == e.a  R == e.r IN
  CASE e.op = "insVE" -> R[1] = q.eh[A[1]] /\ p.tl[R[1]] \notin q.V
    [] e.op = "split" -> R[1] = q.eh[A[1]] /\ p.tl[R[1]] \notin q.V
    [] e.op = "conn" -> R[1] \notin q.H /\ p.tw[R[1]] \notin q.H /\ p.ed[R[1]] \notin q.E /\ p.fc[p.tw[R[1]]] \notin q.F
                        /\ p.tl[R[1]] = q.tl[A[1]] /\ p.fc[R[1]] = q.fc[A[1]]
    [] e.op = "insV" -> /\ R[1] \in p.V \ q.V /\ A[1] \in p.F
                        /\ Cardinality(p.H \ q.H) = 2 * Cardinality(HeOf(q, A[1]))
                        /\ Cardinality(p.E \ q.E) = Cardinality(HeOf(q, A[1]))
                        /\ Cardinality(p.F \ q.F) = Cardinality(HeOf(q, A[1])) - 1
    [] e.op \in {"rmE", "rmV"} -> R[1] = q.fc[IF e.op = "rmE" THEN q.eh[A[1]] ELSE q.vh[A[1]]]
    [] e.op = "collapse" -> R[1] \in p.V
    [] e.op = "sep" -> /\ p.fc[R[1]] = q.fc[q.eh[A[1]]] /\ p.fc[R[2]] = q.fc[q.tw[q.eh[A[1]]]]
                       /\ p.fc[p.tw[R[1]]] < 0 /\ p.fc[p.tw[R[2]]] < 0
                       /\ p.ed[R[1]] # p.ed[R[2]] /\ Cardinality(p.E \ q.E) = 1
    [] OTHER -> TRUE

CollapseResult(q, e) == LET g == CollapseFrom(q, e.a[1]) IN IF IsEar(q, e.a[1]) THEN q.tl[g] ELSE q.tl[q.tw[g]]

EffectFails(q, p, e) ==
  IF e.op = "tri" THEN TriangulateFails(q, p, e.a[1], e.r)
  ELSE IF e.op \in {"init", "copy"} THEN {}
  ELSE LET ok == IF ResultOK(q, p, e) THEN {} ELSE {"result of " \o e.op}
           rr == IF e.op = "collapse" /\ e.r[1] # CollapseResult(q, e) THEN {"vertex kept by a collapse"} ELSE {} IN
       IF ok # {} THEN ok
       ELSE rr \cup (LET x == Expected(q, p, e) IN
                     (IF CoreEq(x, p) THEN {} ELSE {"connectivity after " \o e.op})
                     \cup (IF e.op # "compress" /\ ~FrameOK(q, p) THEN {"representatives of untouched elements after " \o e.op} ELSE {})
                     \cup (IF e.op = "compress" /\ ~SameMesh(x, p) THEN {"representatives after compress"} ELSE {})
                     \cup (IF \A d \in q.E \cap p.E : p.ed[x.eh[d]] = d => p.eh[d] = x.eh[d] THEN {} ELSE {"edge direction after " \o e.op}))

RefusalFails(q, p, e) ==
  LET rf == Refused(e) IN
  (IF rf = RefusalExpected(q, e) THEN {} ELSE IF rf THEN {"legal edit refused: " \o e.op} ELSE {"illegal edit performed: " \o e.op})
  \cup (IF rf /\ RefusalExpected(q, e) /\ (e.x # "") # ExceptionExpected(q, e) THEN {"kind of refusal: " \o e.op} ELSE {})
  \cup (IF rf /\ ~SameMesh(q, p) THEN {"refused edit changed the mesh: " \o e.op} ELSE {})
  \cup (IF rf /\ ~e.keep THEN {"refused edit changed attached data or counts: " \o e.op} ELSE {})

=============================================================================
