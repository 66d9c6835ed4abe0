------------------------------- MODULE Blocks -------------------------------
(* Matrix helpers on matrices given by their entries. A matrix is a record rows, cols and re, im (rows of entries);
   a vector is a record n, re, im.                                                                              *)
EXTENDS Integers, Sequences, FiniteSets

E(m, i, j) == <<m.re[i][j], m.im[i][j]>>
V(v, i) == <<v.re[i], v.im[i]>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Conj(a) == <<a[1], -a[2]>>
Norm2(a) == a[1] * a[1] + a[2] * a[2]

SameM(a, b) == a.rows = b.rows /\ a.cols = b.cols /\ \A i \in 1..a.rows, j \in 1..a.cols : E(a, i, j) = E(b, i, j)
SameV(a, b) == a.n = b.n /\ \A i \in 1..a.n : V(a, i) = V(b, i)

(* the indices in (w = 1) or out of (w = 0) the set A, in increasing order *)
RECURSIVE Pick(_, _, _)
Pick(A, w, k) == IF k > Len(A) THEN <<>> ELSE (IF A[k] = w THEN <<k>> ELSE <<>>) \o Pick(A, w, k + 1)
Inds(A, w) == Pick(A, w, 1)
(* the position of index k among those on its side, from 0 *)
Place(A, k) == Cardinality({l \in 1..(k - 1) : A[l] = A[k]})

(* b holds the rows rs and columns cs of m *)
IsBlock(b, m, rs, cs) ==
  b.rows = Len(rs) /\ b.cols = Len(cs) /\ \A i \in 1..Len(rs), j \in 1..Len(cs) : E(b, i, j) = E(m, rs[i], cs[j])
IsPart(u, v, is) == u.n = Len(is) /\ \A i \in 1..Len(is) : V(u, i) = V(v, is[i])
(* w has u on the indices of A and v elsewhere *)
IsMerge(w, A, u, v) == w.n = Len(A) /\ \A k \in 1..Len(A) : V(w, k) = V(IF A[k] = 1 THEN u ELSE v, Place(A, k) + 1)

RECURSIVE Stacked(_, _, _)  \* all entries of the stack as a set of <<i, j, value>>
Stacked(ms, vert, off) ==
  IF ms = <<>> THEN {}
  ELSE LET m == Head(ms) IN
       {<<(IF vert THEN off ELSE 0) + i, (IF vert THEN 0 ELSE off) + j, E(m, i, j)>> : i \in 1..m.rows, j \in 1..m.cols}
       \cup Stacked(Tail(ms), vert, off + (IF vert THEN m.rows ELSE m.cols))
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
CanStack(ms, vert) ==
  Len(ms) > 0 /\ \A k \in 1..Len(ms) : IF vert THEN ms[k].cols = ms[1].cols ELSE ms[k].rows = ms[1].rows
IsStack(out, ms, vert) ==
  /\ out.rows = (IF vert THEN Total([k \in 1..Len(ms) |-> ms[k].rows]) ELSE ms[1].rows)
  /\ out.cols = (IF vert THEN ms[1].cols ELSE Total([k \in 1..Len(ms) |-> ms[k].cols]))
  /\ {<<i, j, E(out, i, j)>> : i \in 1..out.rows, j \in 1..out.cols} = Stacked(ms, vert, 0)

IsExpansion(r, m) ==
  /\ r.rows = 2 * m.rows /\ r.cols = 2 * m.cols
  /\ \A i \in 1..m.rows, j \in 1..m.cols :
       /\ r.re[2 * i - 1][2 * j - 1] = m.re[i][j] /\ r.re[2 * i - 1][2 * j] = -m.im[i][j]
       /\ r.re[2 * i][2 * j - 1] = m.im[i][j] /\ r.re[2 * i][2 * j] = m.re[i][j]
IsVecExpansion(r, v) == r.n = 2 * v.n /\ \A i \in 1..v.n : r.re[2 * i - 1] = v.re[i] /\ r.re[2 * i] = v.im[i]

(* off by at most eps (entries are whole numbers, so the relative default tolerance means equality) *)
Within(a, b, eps) == Norm2(<<a[1] - b[1], a[2] - b[2]>>) <= (IF eps < 0 THEN 0 ELSE eps * eps)
Symmetric(m, eps) == \A i, j \in 1..m.rows : Within(E(m, i, j), E(m, j, i), eps)
Hermitian(m, eps) == \A i, j \in 1..m.rows : Within(E(m, i, j), Conj(E(m, j, i)), eps)

IsDiagonal(m, n, s) == m.rows = n /\ m.cols = n /\ \A i, j \in 1..n : E(m, i, j) = IF i = j THEN s ELSE <<0, 0>>
IsShift(o, m, s) ==
  o.rows = m.rows /\ o.cols = m.cols
  /\ \A i \in 1..m.rows, j \in 1..m.cols : E(o, i, j) = IF i = j THEN CAdd(E(m, i, j), s) ELSE E(m, i, j)
=============================================================================
