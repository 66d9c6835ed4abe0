------------------------------- MODULE CutTrace -------------------------------
(* Recorded calls of cutAlongEdges(), in terms of the meshes of ManifoldMesh. Trace[e.p].s is the mesh that is cut, e.a the edges
   to cut, e.s the result and e.par[h] the halfedge of the original that halfedge h of the result comes from (0: none).

   Opening a set X of interior edges leaves faces as they are and every other edge glued; each side of an edge of X ends up along
   the boundary. The result is determined by this up to the names of its elements.                                      *)
EXTENDS ManifoldEdits, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>
Chk(c, name) == IF c THEN {} ELSE {name}

EndsOf(m, e) == {m.tl[m.eh[e]], m.tl[m.tw[m.eh[e]]]}
RECURSIVE Grow(_, _, _)
Grow(m, X, V) == LET W == V \cup UNION {EndsOf(m, e) : e \in {x \in X : EndsOf(m, x) \cap V # {}}} IN
                 IF W = V THEN V ELSE Grow(m, X, W)
(* X consists of trees, each of which meets the boundary in at most one vertex: this can always be cut *)
Cuttable(m, X) ==
  /\ X # {}
  /\ \A e \in X : ~BdryEdge(m, e) /\ Cardinality(EndsOf(m, e)) = 2
  /\ \A e \in X : LET V == Grow(m, X, EndsOf(m, e)) IN
       /\ Cardinality({x \in X : EndsOf(m, x) \subseteq V}) = Cardinality(V) - 1
       /\ Cardinality({v \in V : BdryVertex(m, v)}) <= 1
(* X contains something that is open already: what happens then is left open, except that the result is a mesh *)
Open(m, X) == \E e \in X : BdryEdge(m, e)

RECURSIVE Reach(_, _, _)
Reach(m, front, seen) == LET T == ({m.nx[h] : h \in front} \cup {m.tw[h] : h \in front}) \ seen IN
                         IF T = {} THEN seen ELSE Reach(m, T, seen \cup T)

Opened(m, X, n, par) ==
  LET In(k) == {h \in k.H : Interior(k, h)} IN
  Chk(/\ \A h \in In(n) : par[h] \in In(m)
      /\ {par[h] : h \in In(n)} = In(m) /\ Cardinality(In(n)) = Cardinality(In(m)),
      "each interior halfedge has its own parent")
  \cup (IF \E h \in In(n) : par[h] \notin In(m) THEN {} ELSE
     Chk(\A h \in In(n) : par[n.nx[h]] = m.nx[par[h]], "faces are the parents' faces")
     \cup Chk(\A h \in In(n) : m.ed[par[h]] \in X => ~Interior(n, n.tw[h]), "cut edges are open")
     \cup Chk(\A h \in In(n) : m.ed[par[h]] \notin X => par[n.tw[h]] = m.tw[par[h]], "other edges stay glued, with parents on both sides")
     \cup Chk(\A h \in n.H \ In(n) : par[h] = IF m.ed[par[n.tw[h]]] \in X THEN 0 ELSE m.tw[par[n.tw[h]]],
              "exterior halfedges along the cut have no parent"))
  \cup Chk(Cardinality(n.E) = Cardinality(m.E) + Cardinality(X) /\ Cardinality(n.F) = Cardinality(m.F), "one more edge per cut edge")

Fails(e) ==
  IF e.op # "cut" THEN {}
  ELSE LET m == MeshOf(Trace[e.p].s)  X == SeqSet(e.a) IN
       Chk(e.keep, "the input is left alone")
       \cup (IF e.x # "" THEN Chk(~Cuttable(m, X), "trees of interior edges can be cut")
             ELSE (IF ~IterationOK(e.s) \/ ~WF(MeshOf(e.s)) THEN {"the result is a mesh"}
                        ELSE LET n == MeshOf(e.s) IN
                             Invalid(n) \cup (IF Open(m, X) THEN {} ELSE Opened(m, X, n, e.par))
                             \cup (IF Cuttable(m, X)
                                   THEN LET h == CHOOSE x \in n.H : TRUE  g == CHOOSE x \in m.H : TRUE IN
                                        Chk((Reach(m, {g}, {g}) = m.H) => (Reach(n, {h}, {h}) = n.H), "the surface stays in one piece")
                                   ELSE {})))

Init == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1] IN
     IF e.op = "crash" THEN PrintT(<<"FAIL", i + 1, {"no crash or hang (" \o e.why \o ")"}>>) /\ bad' = bad + 1
     ELSE LET f == Fails(e) IN IF f = {} THEN bad' = bad ELSE PrintT(<<"FAIL", i + 1, f>>) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
