--------------------------- MODULE GeneralTrace ---------------------------
(* Trace validation of mesh construction (C05), navigation (C10) and edits of general meshes (C11) recorded by
   harness/gen_hist.cpp.                                                                                            *)
EXTENDS Navigation, Json, IOUtils
CONSTANT Prop
ASSUME Prop \in {"C05", "C10", "C11"}
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>

Increasing(q) == \A k \in 1..(Len(q) - 1) : q[k] < q[k + 1]
IterationOK(s) == Increasing(s.H) /\ Increasing(s.V) /\ Increasing(s.E) /\ Increasing(s.F) /\ Increasing(s.B)
Usable(s) == IterationOK(s) /\ WF(MeshOf(s))

-------------------------------------------------------------------------------
ManifoldHows == {"man", "manmat", "manfac", "manuv"}
GlueHows == {"glue", "glueuv"}
Accepts(e) == IF e.how \in ManifoldHows THEN ManifoldOK(e.polys)
              ELSE IF e.how \in GlueHows THEN GlueOK(e.polys, e.glue) ELSE GeneralOK(e.polys)
CountFails(s) ==
  LET m == MeshOf(s)  c == s.c  ext == {h \in m.H : ~Interior(m, h)} IN
  check("element counts", c.nV = Cardinality(m.V) /\ c.nE = Cardinality(m.E) /\ c.nF = Cardinality(m.F) /\ c.nB = Cardinality(m.B)
                          /\ c.nH = Cardinality(m.H))
  \cup check("interior and exterior counts", c.nIH = Cardinality(m.H \ ext) /\ c.nEH = Cardinality(ext) /\ c.nC = c.nIH)
  \cup check("interior halfedges and corners enumerated", Increasing(c.iIH) /\ SeqSet(c.iIH) = m.H \ ext /\ c.iC = c.iIH)
  \cup check("connected components", c.nCC = VComponents(m, m.V))
Lists(s) ==
  LET m == MeshOf(s) IN
  check("per-vertex incidence lists",
     \A k \in 1..Len(s.V) : Bag(s.vO[k], Out(m, s.V[k]), Id) /\ Bag(s.vI[k], In(m, s.V[k]), Id))

BuildFails(e) ==
  IF Accepts(e) # e.live THEN {IF e.live THEN "malformed input accepted (" \o e.how \o ")" ELSE "valid input rejected (" \o e.how \o ")"}
  ELSE IF ~e.live THEN check("rejection is reported by an exception", e.x # "")
  ELSE IF ~Usable(e.s) THEN {"every pointer names a live element"}
  ELSE LET m == MeshOf(e.s)  P == e.polys IN
       Invalid(m)
       \cup check("kind of mesh", m.man = (e.how \in ManifoldHows \cup GlueHows))
       \cup (IF e.how \in GlueHows THEN MeshOfPolys(m, P, GlueFun(P, e.glue), TRUE)
             ELSE IF e.how \in ManifoldHows THEN MeshOfPolys(m, P, NaturalGlue(P), TRUE)
             ELSE MeshOfPolys(m, P, <<>>, FALSE))
       \cup check("positions and parameter coordinates land on their elements", e.data)
       \cup check("exported polygons are the input", e.out = P)
       \cup check("a new mesh is compressed", e.s.comp)
       \cup CountFails(e.s)

-------------------------------------------------------------------------------
(* Effects of general edits *)
DegOf(m, e) == Cardinality(HeOfEdge(m, e))
Effect(q, p, e) ==
  CASE e.op = "inv" -> check("inversion reverses exactly one face", e.x = "" /\ Same(InvertFaces(q, {e.a[1]}), p))
    [] e.op = "dup" ->
         IF e.x # "" \/ p.F # q.F \cup {e.r[1]} \/ e.r[1] \in q.F \/ Len(Ring(p, p.fh[e.r[1]])) # Len(Ring(q, q.fh[e.a[1]]))
         THEN {"duplication adds one face of the same degree"}
         ELSE LET r1 == Ring(q, q.fh[e.a[1]])  r2 == Ring(p, p.fh[e.r[1]])
                  nh == [h \in SeqSet(r1) |-> r2[CHOOSE k \in 1..Len(r1) : r1[k] = h]] IN
              check("duplicated halfedges are new", SeqSet(r2) \cap q.H = {})
              \cup check("duplicate face is a copy", SeqSet(r2) \cap q.H = {} => Same(Duplicate(q, e.a[1], e.r[1], nh), p))
    [] e.op = "flip" ->
         LET ok == FlipPossible(q, e.a[1], e.a[2] = 1) IN
         check("flip is refused exactly when impossible", e.x = "" /\ (e.r[1] = 1) = ok)
         \cup check("effect of a flip", e.x = "" => Same(IF e.r[1] = 1 /\ ok THEN Flip(q, e.a[1]) ELSE q, p))
    [] e.op = "sepE" ->
         LET A == e.a[1]  B == e.a[2]  bogus == A = B \/ q.ed[A] # q.ed[B] IN
         IF bogus THEN check("separating unrelated halfedges is an error", e.x # "" /\ Same(q, p))
         ELSE IF DegOf(q, q.ed[A]) <= 2 THEN check("separating a manifold edge does nothing", e.x = "" /\ e.r[1] = q.ed[A] /\ Same(q, p))
         ELSE check("separation returns a new edge", e.x = "" /\ e.r[1] \notin q.E)
              \cup check("separation moves exactly two halfedges to the new edge",
                     e.x = "" => CoreEq([q EXCEPT !.E = @ \cup {e.r[1]}, !.ed = [@ EXCEPT ![A] = e.r[1], ![B] = e.r[1]]], p)
                                 /\ SameSides(q, p))
    [] e.op = "sepEs" ->
         check("separation leaves polygons alone", e.x = "" /\ p.H = q.H /\ p.V = q.V /\ p.F = q.F /\ p.nx = q.nx /\ p.tl = q.tl /\ p.fc = q.fc)
         \cup check("separated edges are manifold", \A d \in p.E : DegOf(p, d) \in {1, 2})
         \cup check("separation only splits edges",
                p.H = q.H => /\ \A h, g \in q.H : p.ed[h] = p.ed[g] => q.ed[h] = q.ed[g]
                             /\ SameSides(q, p)
                             /\ \A d \in q.E : Cardinality({p.ed[h] : h \in HeOfEdge(q, d)}) = (DegOf(q, d) + 1) \div 2
                             /\ \A d \in q.E : d \in {p.ed[h] : h \in HeOfEdge(q, d)})
    [] e.op = "sepVs" ->
         IF \E d \in q.E : DegOf(q, d) > 2 THEN check("vertex separation requires manifold edges", e.x # "" /\ Same(q, p))
         ELSE check("vertex separation keeps polygons and edges",
                     e.x = "" /\ p.H = q.H /\ p.E = q.E /\ p.F = q.F /\ p.nx = q.nx /\ p.ed = q.ed /\ p.fc = q.fc /\ SameSides(q, p)
                     /\ q.V \subseteq p.V)
              \cup check("corners share a vertex exactly when joined by faces",
                     p.H = q.H => \A h, g \in q.H : (p.tl[h] = p.tl[g]) = (g \in CornerClass(q, h)))
              \cup check("vertices keep their name in one fan", p.H = q.H => \A v \in q.V : \E h \in p.H : p.tl[h] = v /\ q.tl[h] = v)
              \cup check("vertex separation reports parents",
                     p.H = q.H => Len(e.r) = Cardinality(p.V) /\
                       LET VS == Trace[i + 1].s.V IN \A k \in 1..Len(VS) : \A h \in p.H : p.tl[h] = VS[k] => e.r[k] = q.tl[h])
    [] e.op = "orient" ->
         IF ~(p.H = q.H /\ p.fc = q.fc) THEN {"orientation keeps faces"}
         ELSE LET S == {f \in q.F : \E h \in q.H : q.fc[h] = f /\ p.or[h] # q.or[h]} IN
              check("orientation only reverses faces", e.x = "" /\ Same(InvertFaces(q, S), p))
              \cup check("orientable patches become oriented",
                     \A f \in p.F : LET C == PatchFrom(p, {f}, {f}) IN
                        (\E d \in TwoSided(p) : p.fc[p.eh[d]] \in C /\ ~EdgeOriented(p, d)) => ~Orientable(p, C))
              \cup check("oriented patches are left alone",
                     \A f \in p.F : LET C == PatchFrom(p, {f}, {f}) IN
                        (\A d \in TwoSided(q) : q.fc[q.eh[d]] \in C => EdgeOriented(q, d)) => C \cap S = {})
    [] e.op \in {"compress", "copy"} -> check("nothing changes on " \o e.op, e.x = "" /\ q = p)
    [] e.op = "toman" ->
         LET ok == /\ MeshManifold(q) /\ MeshOriented(q)
                   /\ (\A h \in q.H : q.tl[h] # Tip(q, h)) /\ (\A f \in q.F : Len(Ring(q, q.fh[f])) >= 3) IN
         check("conversion succeeds exactly on manifold oriented meshes", e.live = ok /\ (e.x = "") = ok)
         \cup check("conversion keeps the original", q = p)
         \cup (IF ~e.live THEN {} ELSE IF ~Usable(e.t) THEN {"converted mesh has dangling pointers"}
               ELSE LET t == MeshOf(e.t)  VS == Trace[i + 1].s.V  FS == Trace[i + 1].s.F
                        rV == [v \in q.V |-> CHOOSE k \in 1..Len(VS) : VS[k] = v]
                        P == [k \in 1..Len(FS) |-> [n \in 1..Len(Ring(q, q.fh[FS[k]])) |-> rV[q.tl[Ring(q, q.fh[FS[k]])[n]]]]]
                        sideOf(h) == LET f == CHOOSE k \in 1..Len(FS) : FS[k] = q.fc[h]  r == Ring(q, q.fh[FS[f]]) IN
                                     <<f, CHOOSE n \in 1..Len(r) : r[n] = h>>
                        G == [s \in SidesOf(P) |-> LET h == Ring(q, q.fh[FS[s[1]]])[s[2]] IN IF q.sb[h] = h THEN <<0, 0>> ELSE sideOf(q.sb[h])] IN
                    Invalid(t) \cup check("converted mesh is manifold", t.man) \cup MeshOfPolys(t, P, G, TRUE) \cup CountFails(e.t))
    [] OTHER -> {}

Fails(n) ==
  LET e == Trace[n] IN
  IF e.op = "crash" THEN {"no crash, hang or failed internal assertion (" \o e.why \o ")"}
  ELSE IF Prop = "C05" THEN BuildFails(e)
  ELSE IF ~Usable(e.s) THEN {"every pointer names a live element"}
  ELSE IF Prop = "C10" THEN NavFails(e.s)
  ELSE Invalid(MeshOf(e.s)) \cup CountFails(e.s) \cup Lists(e.s)
       \cup (IF e.op = "init" THEN {} ELSE Effect(MeshOf(Trace[e.p].s), MeshOf(e.s), e))

Init == i = 0 /\ bad = {}
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ IF Trace[i + 1].op # "init" /\ Trace[i + 1].p \in bad
     THEN bad' = bad \cup {i + 1}
     ELSE LET f == Fails(i + 1) IN
          IF f = {} THEN bad' = bad
          ELSE PrintT(<<"FAIL", i + 1, f>>) /\ bad' = bad \cup {i + 1}
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
