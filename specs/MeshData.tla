------------------------------ MODULE MeshData ------------------------------
(* Per-element data containers (MeshData: VertexData, EdgeData, ... and PointData) as values.

   A container is a record
     t    where it lives: 1 or 2 (a mesh), 3 (the point cloud), 0 (nowhere: default constructed, cleared, or the mesh
          has been destroyed) or -1 (moved from: only assignment, clearing and destruction make sense)
     k    element kind; ty value type ("i" integer, "b" boolean, "s" string, all represented by integers, 0 = T())
     def  the value elements created later start with
     val  function from the live elements of that kind to values

   Every operation on containers is a function of such records; a mesh edit acts on all containers of the mesh.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Bitwise

Elems(L) == {L[j] : j \in 1..Len(L)}      \* L: elements in iteration order
Nowhere == [e \in {} |-> 0]

NewC(t, k, ty, def, L) == [t |-> t, k |-> k, ty |-> ty, def |-> def, val |-> [e \in Elems(L) |-> def]]
Moved(c) == [c EXCEPT !.t = -1, !.val = Nowhere]
Cleared(c) == [c EXCEPT !.t = 0, !.def = 0, !.val = Nowhere]
Orphaned(c) == [c EXCEPT !.t = 0, !.val = Nowhere]
Written(c, e, x) == [c EXCEPT !.val[e] = x]
Filled(c, x) == [c EXCEPT !.val = [e \in DOMAIN c.val |-> x]]
DefaultSet(c, x) == [c EXCEPT !.def = x]

\* an edit of the mesh: L1 the elements afterwards. Surviving elements keep their value, new ones read the default
Carried(c, L1) == [c EXCEPT !.val = [e \in Elems(L1) |-> IF e \in DOMAIN c.val THEN c.val[e] ELSE c.def]]
\* compression renumbers, preserving order
RankIn(S) == [x \in S |-> Cardinality({y \in S : y <= x})]
\* (a corner carries the number of its halfedge, so it is renumbered with the halfedges H of the mesh)
Renumbered(c, H) ==
  LET S == DOMAIN c.val  r == RankIn(IF c.k = "C" THEN H ELSE S) IN
  [c EXCEPT !.val = [n \in {r[x] : x \in S} |-> c.val[CHOOSE x \in S : r[x] = n]]]

\* conversions to and from dense vectors (positions of an indexer count from 0, negative: left out)
ToVector(c, L) == [j \in 1..Len(L) |-> c.val[L[j]]]
FromVector(c, L, v) == [c EXCEPT !.val = [e \in Elems(L) |-> v[CHOOSE j \in 1..Len(L) : L[j] = e]]]
Used(idx) == {j \in 1..Len(idx) : idx[j] >= 0}
ToVectorIdx(c, L, idx) == [n \in 1..Cardinality(Used(idx)) |-> c.val[L[CHOOSE j \in Used(idx) : idx[j] = n - 1]]]
FromVectorIdx(c, L, v, idx) ==
  [c EXCEPT !.val = [e \in Elems(L) |-> LET j == CHOOSE m \in 1..Len(L) : L[m] = e IN
                                        IF idx[j] >= 0 THEN v[idx[j] + 1] ELSE c.val[e]]]

\* arithmetic, element by element
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
B(x) == IF x THEN 1 ELSE 0
Ap(op, x, y) ==
  CASE op = "+" -> x + y [] op = "-" -> x - y [] op = "*" -> x * y
    [] op = "/" -> x \div y [] op = "%" -> x % y
    [] op = "&" -> x & y [] op = "|" -> x | y [] op = "^" -> x ^^ y
    [] op = "<<" -> x * Pow2(y) [] op = ">>" -> x \div Pow2(y)
    [] op = "&&" -> B(x # 0 /\ y # 0) [] op = "||" -> B(x # 0 \/ y # 0)
    [] op = "neg" -> -x [] op = "pos" -> x [] op = "not" -> B(x = 0) [] op = "inv" -> -x - 1
ResultType(op) == IF op \in {"&&", "||", "not"} THEN "b" ELSE "i"
\* the result of an operator is a fresh container with default T()
Arith(op, a, f) == [a EXCEPT !.ty = ResultType(op), !.def = 0, !.val = [e \in DOMAIN a.val |-> Ap(op, f[e][1], f[e][2])]]
Inplace(op, a, f) == [a EXCEPT !.val = [e \in DOMAIN a.val |-> Ap(op, f[e][1], f[e][2])]]
=============================================================================
