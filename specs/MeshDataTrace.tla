--------------------------- MODULE MeshDataTrace ---------------------------
(* Trace validation of histories of containers over meshes that are edited, copied and destroyed, recorded by
   harness/data_hist.cpp. Line n: e.op, arguments e.a, e.k, e.ty, e.aop, e.v, e.idx, exception e.x, results e.r, e.r2,
   e.polys and the world e.w afterwards: two meshes, a point cloud and all containers with the values they read.
   Prop: C06 (copies and conversions of meshes), C07 (data follows elements), C08 (containers are values).           *)
EXTENDS MeshData, ManifoldMesh, Json, IOUtils

CONSTANT Prop
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>

MeshOf(s) ==
  LET H == SeqSet(s.H) V == SeqSet(s.V) E == SeqSet(s.E) F == SeqSet(s.F) BB == SeqSet(s.B) IN
  [H |-> H, V |-> V, E |-> E, F |-> F, B |-> BB,
   nx |-> [h \in H |-> s.nx[h]], tw |-> [h \in H |-> s.tw[h]], tl |-> [h \in H |-> s.tl[h]],
   ed |-> [h \in H |-> s.ed[h]], fc |-> [h \in H |-> s.fc[h]],
   vh |-> [v \in V |-> s.vh[v]], eh |-> [e \in E |-> s.eh[e]], fh |-> [f \in F |-> s.fh[f]], bh |-> [b \in BB |-> s.bh[b]]]

M(w, t) == IF t = 1 THEN w.m1 ELSE w.m2
Alive(w, t) == IF t = 3 THEN w.pc.live ELSE M(w, t).live
List(w, t, k) == IF t = 3 THEN w.pc.P
  ELSE LET s == M(w, t) IN CASE k = "V" -> s.V [] k = "H" -> s.H [] k = "C" -> s.C [] k = "E" -> s.E [] k = "F" -> s.F [] k = "B" -> s.B

Ids(w) == {w.d[j].i : j \in 1..Len(w.d)}
Raw(w, c) == w.d[CHOOSE j \in 1..Len(w.d) : w.d[j].i = c]
\* the container c as a value; WellListed says that it has one value per live element
WellListed(w, c) == LET x == Raw(w, c) IN
  IF x.t > 0 THEN x.t \in 1..3 /\ Alive(w, x.t) /\ Len(x.v) = Len(List(w, x.t, x.k)) ELSE x.v = <<>>
C(w, c) ==
  LET x == Raw(w, c)  L == IF x.t > 0 THEN List(w, x.t, x.k) ELSE <<>> IN
  [t |-> x.t, k |-> x.k, ty |-> x.ty, def |-> IF x.t = -1 THEN 0 ELSE x.def,
   val |-> IF x.t > 0 THEN [e \in Elems(L) |-> x.v[CHOOSE j \in 1..Len(L) : L[j] = e]] ELSE Nowhere]
CEq(a, b) == a.t = b.t /\ a.k = b.k /\ a.ty = b.ty /\ (a.t = -1 \/ (a.def = b.def /\ a.val = b.val))

check(name, ok) == IF ok THEN {} ELSE {name}
OthersSame(q, p, S) == \A c \in (Ids(q) \cap Ids(p)) \ S : CEq(C(q, c), C(p, c))
WorldSame(q, p) == q.m1 = p.m1 /\ q.m2 = p.m2 /\ q.pc = p.pc

-------------------------------------------------------------------------------
\* C07: a mesh (or the cloud) in place t changes
\* a corner exists while its halfedge is interior: the value of a corner that comes back is not specified
Follows(q, p, c, compress) ==
  LET a == C(q, c)  b == C(p, c)
      L1 == List(p, a.t, a.k)
      x == IF compress THEN Renumbered(a, IF a.k = "C" THEN Elems(M(q, a.t).H) ELSE {}) ELSE Carried(a, L1) IN
  /\ a.t = b.t /\ a.def = b.def /\ DOMAIN b.val = DOMAIN x.val
  /\ \A e \in DOMAIN x.val : b.val[e] = x.val[e] \/ (a.k = "C" /\ ~compress /\ e \notin DOMAIN a.val /\ e \in Elems(M(q, a.t).H))
MeshChangeFails(q, p, t, compress) ==
  check("containers survive edits of their mesh", Ids(q) = Ids(p))
  \cup UNION {IF C(q, c).t = t
              THEN check("values follow their elements, new elements read the default (" \o C(q, c).k \o
                         (IF compress THEN ", compress)" ELSE ")"), Follows(q, p, c, compress))
              ELSE check("containers of other meshes are not affected", CEq(C(q, c), C(p, c)))
              : c \in Ids(q) \cap Ids(p)}

Follow7(q, p, e) ==
  CASE e.op = "mesh" -> MeshChangeFails(q, p, e.a[1], e.aop = "compress")
    [] e.op \in {"pcadd", "pcdel"} -> MeshChangeFails(q, p, 3, FALSE)
         \cup check("points of the cloud", IF e.op = "pcadd" THEN Elems(p.pc.P) = Elems(q.pc.P) \cup {e.r[1]} /\ e.r[1] \notin Elems(q.pc.P)
                                           ELSE Elems(p.pc.P) = Elems(q.pc.P) \ {e.r[1]})
    [] e.op = "pccompress" -> MeshChangeFails(q, p, 3, TRUE)
         \cup check("points of the cloud", p.pc.P = [j \in 1..Len(q.pc.P) |-> j] /\ p.pc.comp)
    [] e.op = "cpmesh" -> check("containers are not affected by copying a mesh", OthersSame(q, p, {}))
    [] e.op \in {"write", "fill", "setdef"} ->
         LET c == e.a[1]  a == C(q, c)  L == List(q, a.t, a.k)
             x == IF e.op = "write" THEN Written(a, L[e.a[2]], IF a.ty = "b" THEN B(e.a[3] # 0) ELSE e.a[3])
                  ELSE IF e.op = "fill" THEN Filled(a, IF a.ty = "b" THEN B(e.a[2] # 0) ELSE e.a[2])
                  ELSE DefaultSet(a, IF a.ty = "b" THEN B(e.a[2] # 0) ELSE e.a[2]) IN
         check(e.op, CEq(x, C(p, c))) \cup check("other containers and meshes unaffected by " \o e.op, OthersSame(q, p, {c}) /\ WorldSame(q, p))
    [] e.op = "new" -> LET c == e.a[1] IN
         check("new container reads its default",
               e.a[4] \in {2, 3, 4} \/ CEq(C(p, c), NewC(e.a[2], e.k, e.ty, IF e.a[4] = 1 THEN e.a[3] ELSE 0, List(p, e.a[2], e.k))))
    [] OTHER -> {}

-------------------------------------------------------------------------------
\* C08: operations on containers. For each: which containers change, and into what
Rev(v) == [j \in 1..Len(v) |-> v[Len(v) + 1 - j]]
Target(q, e) ==  \* function from the changed containers to their values
  LET A == e.a IN
  CASE e.op = "new" ->
         LET L == IF e.a[4] = 3 THEN <<>> ELSE List(q, A[2], e.k)
             c0 == NewC(A[2], e.k, e.ty, 0, L) IN
         A[1] :> (CASE A[4] = 0 -> c0
                    [] A[4] = 1 -> NewC(A[2], e.k, e.ty, A[3], L)
                    [] A[4] = 2 -> FromVector(c0, L, e.v)
                    [] A[4] = 4 -> FromVector(c0, L, Rev(e.v))
                    [] A[4] = 3 -> Cleared(c0))
    [] e.op = "copyc" -> A[1] :> C(q, A[2])
    [] e.op = "movec" -> (A[1] :> C(q, A[2])) @@ (A[2] :> Moved(C(q, A[2])))
    [] e.op = "assign" -> A[1] :> C(q, A[2])
    [] e.op = "massign" -> (A[1] :> C(q, A[2])) @@ (A[2] :> Moved(C(q, A[2])))
    [] e.op = "swap" -> (A[1] :> C(q, A[2])) @@ (A[2] :> C(q, A[1]))
    [] e.op = "clear" -> A[1] :> Cleared(C(q, A[1]))
    [] e.op = "tovec" -> A[1] :> C(q, A[1])
    [] e.op = "fromvec" ->
         LET a == C(q, A[1])  L == List(q, a.t, a.k) IN
         A[1] :> (IF e.x # "" THEN a ELSE IF e.idx # <<>> THEN FromVectorIdx(a, L, e.v, e.idx) ELSE FromVector(a, L, e.v))
    [] e.op = "arith" ->
         LET a == C(q, A[2])
             f == [x \in DOMAIN a.val |-> IF A[5] = 0 THEN <<a.val[x], C(q, A[3]).val[x]>>
                                          ELSE IF A[5] = 1 THEN <<a.val[x], A[4]>> ELSE <<A[4], a.val[x]>>] IN
         A[1] :> Arith(e.aop, a, f)
    [] e.op = "inplace" ->
         LET a == C(q, A[1])
             f == [x \in DOMAIN a.val |-> <<a.val[x], IF A[2] > 0 THEN C(q, A[2]).val[x] ELSE A[3]>>] IN
         A[1] :> Inplace(e.aop, a, f)
    [] OTHER -> [x \in {} |-> 0]

IsValueOp(e) == e.op \in {"new", "copyc", "movec", "assign", "massign", "swap", "clear", "tovec", "fromvec", "arith", "inplace"}
Value8(q, p, e) ==
  IF IsValueOp(e) THEN
    LET T == Target(q, e) IN
    check("set of containers after " \o e.op, Ids(p) = Ids(q) \cup DOMAIN T)
    \cup UNION {check(e.op \o " " \o e.aop, c \in Ids(p) /\ CEq(C(p, c), T[c])) : c \in DOMAIN T}
    \cup check("other containers unaffected by " \o e.op, OthersSame(q, p, DOMAIN T))
    \cup check("meshes unaffected by " \o e.op, WorldSame(q, p))
    \cup (IF e.op = "fromvec" THEN check("fromVector refuses vectors of the wrong length",
                (e.x # "") = (e.idx = <<>> /\ LET a == C(q, e.a[1]) IN Len(e.v) # Len(List(q, a.t, a.k)))) ELSE check("no exception", e.x = ""))
    \cup (IF e.op = "tovec" THEN
            LET a == C(q, e.a[1])  L == List(q, a.t, a.k) IN
            check("toVector", e.r = IF e.idx # <<>> THEN ToVectorIdx(a, L, e.idx) ELSE ToVector(a, L))
            \cup check("access by index", e.r2 = ToVector(a, L))
          ELSE {})
  ELSE IF e.op = "del" THEN
    check("set of containers after del", Ids(p) = Ids(q) \ {e.a[1]}) \cup check("other containers unaffected by del", OthersSame(q, p, {}))
    \cup check("meshes unaffected by del", WorldSame(q, p))
  ELSE IF e.op \in {"delmesh", "pckill"} THEN
    LET t == IF e.op = "pckill" THEN 3 ELSE e.a[1] IN
    check("set of containers after destroying a mesh", Ids(p) = Ids(q))
    \cup UNION {check("containers after destroying a mesh",
            CEq(C(p, c), IF C(q, c).t = t THEN Orphaned(C(q, c)) ELSE C(q, c))) : c \in Ids(q) \cap Ids(p)}
  ELSE {}
Sizes8(p) ==
  UNION {LET x == Raw(p, c) IN
         IF x.t > 0 THEN check("size covers all elements", \A e2 \in Elems(List(p, x.t, x.k)) : e2 <= x.n)
         ELSE IF x.t = 0 THEN check("size of an empty container", x.n = 0) ELSE {} : c \in Ids(p)}

-------------------------------------------------------------------------------
\* C06: copies
Flat(s) == MeshOf(s)
Same(a, b) == SameMesh(Flat(a), Flat(b)) /\ a.comp = b.comp /\ a.C = b.C
\* b is a, rebuilt from its faces: k-th face to k-th face, side by side
Rebuilt(a, b) ==
  LET m == Flat(a)  p == Flat(b)
      rV == Rank(m.V)  rF == Rank(m.F)
      ring(f) == Ring(m, m.fh[f])  ring2(f) == Ring(p, p.fh[rF[f]])
      I == {h \in m.H : m.fc[h] > 0}
      sane == /\ p.F = 1..Cardinality(m.F) /\ p.V = 1..Cardinality(m.V) /\ p.E = 1..Cardinality(m.E) /\ Cardinality(p.H) = Cardinality(m.H)
              /\ Cardinality(p.B) = Cardinality(m.B)
              /\ \A f \in m.F : Len(ring(f)) = Len(ring2(f))
  IN IF ~sane THEN FALSE
     ELSE LET pos(h) == CHOOSE j \in 1..Len(ring(m.fc[h])) : ring(m.fc[h])[j] = h
              inn == [h \in I |-> ring2(m.fc[h])[pos(h)]]
              map == [h \in m.H |-> IF h \in I THEN inn[h] ELSE p.tw[inn[m.tw[h]]]] IN
          /\ {map[h] : h \in m.H} = p.H
          /\ \A h \in m.H : /\ p.nx[map[h]] = map[m.nx[h]] /\ p.tw[map[h]] = map[m.tw[h]]
                            /\ p.tl[map[h]] = rV[m.tl[h]] /\ (m.fc[h] > 0) = (p.fc[map[h]] > 0)
                            /\ (m.fc[h] > 0 => p.fc[map[h]] = rF[m.fc[h]])
Copy6(q, p, e) ==
  CASE e.op = "cpmesh" ->
         \* polygons are rebuilt from vertex lists, which cannot express self-edges or degree-1 and degree-2 faces
         LET conv == e.a[1] # 3 \/ LET m == Flat(q.m1) IN
                       /\ \A h \in m.H : m.tl[h] # m.tl[m.nx[h]]
                       /\ \A f \in m.F : Len(Ring(m, m.fh[f])) >= 3 IN
         check("copying succeeds exactly on meshes that can be converted", (e.x = "") = conv /\ p.m2.live = conv)
         \cup (IF ~p.m2.live THEN {} ELSE
               IF e.a[1] = 3 THEN check("conversion to a manifold mesh", Rebuilt(q.m1, p.m2) /\ Valid(Flat(p.m2)) /\ p.m2.comp)
               ELSE check("a copy is identical", Same(q.m1, p.m2)))
         \cup check("copying does not change the original", q.m1 = p.m1 /\ q.pc = p.pc)
    [] e.op = "mesh" ->
         check("editing one mesh does not change another", IF e.a[1] = 1 THEN q.m2 = p.m2 ELSE q.m1 = p.m1)
         \cup check("a copy stays valid while it is edited", ~M(p, e.a[1]).live \/ Valid(Flat(M(p, e.a[1]))))
    [] e.op = "delmesh" -> check("destroying one mesh does not change another", IF e.a[1] = 1 THEN q.m2 = p.m2 ELSE q.m1 = p.m1)
    [] e.op = "reinterp" ->
         LET a == C(q, e.a[2])  b == C(p, e.a[1]) IN
         check("data transferred to a copy keeps its values",
               b.t = e.a[3] /\ b.k = a.k /\ b.def = a.def /\
               (IF DOMAIN a.val = DOMAIN b.val THEN a.val = b.val ELSE FALSE))
         \cup check("transferring data changes nothing else", OthersSame(q, p, {e.a[1]}) /\ WorldSame(q, p))
    [] e.op = "polys" ->
         LET m == Flat(q.m1)  rV == Rank(m.V)
             S == q.m1.F IN
         check("polygon list", e.polys = [j \in 1..Len(S) |-> LET r == Ring(m, m.fh[S[j]]) IN [n \in 1..Len(r) |-> rV[m.tl[r[n]]] - 1]])
         \cup check("exporting polygons changes nothing", WorldSame(q, p))
    [] OTHER -> {}
\* a container on a mesh made by copying stays usable
Carry6(q, p, e) == IF e.op = "mesh" /\ e.a[1] = 2
  THEN {x \in MeshChangeFails(q, p, 2, e.aop = "compress") : TRUE} ELSE {}

Fails(n) ==
  LET e == Trace[n] IN
  IF e.op = "crash" THEN {"no crash, hang, memory error or failed internal assertion (" \o e.why \o ")"}
  ELSE
  LET p == e.w IN
  IF \E c \in Ids(p) : ~WellListed(p, c) THEN {"a container has one value per element of its mesh"}
  ELSE IF e.op = "init" THEN {}
  ELSE LET q == Trace[e.p].w IN
       CASE Prop = "C07" -> Follow7(q, p, e)
         [] Prop = "C08" -> Value8(q, p, e) \cup Sizes8(p)
         [] Prop = "C06" -> Copy6(q, p, e) \cup Carry6(q, p, e)

Init == i = 0 /\ bad = {}
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ IF Trace[i + 1].op # "init" /\ Trace[i + 1].p \in bad
     THEN bad' = bad \cup {i + 1}
     ELSE LET f == Fails(i + 1) IN
          IF f = {} THEN bad' = bad
          ELSE PrintT(<<"FAIL", i + 1, f>>) /\ bad' = bad \cup {i + 1}
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
