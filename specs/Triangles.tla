------------------------------ MODULE Triangles ------------------------------
(* When do two triangles in space share a point? Points are triples of integers, a triangle is a sequence of three points that
   are not on a line; everything is decided by exact determinants. A triangle is the closed set it spans.              *)
EXTENDS Integers, Sequences, FiniteSets

Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Normal(t) == Cross(Sub(t[2], t[1]), Sub(t[3], t[1]))
Side(t, x) == Dot(Normal(t), Sub(x, t[1]))        \* > 0: x on the side the normal points to
Det(a, b, c, d) == Dot(Cross(Sub(b, a), Sub(c, a)), Sub(d, a))
Abs(x) == IF x < 0 THEN -x ELSE x
SameSide(x, y) == (x > 0 /\ y > 0) \/ (x < 0 /\ y < 0)
Proper(t) == Normal(t) # <<0, 0, 0>>
Coplanar(p, q) == \A k \in 1..3 : Side(p, q[k]) = 0

(* in one plane: x is inside t iff it is on no side's outer side *)
Outer(t, k, x) == Dot(Cross(Sub(t[(k % 3) + 1], t[k]), Sub(x, t[k])), Normal(t)) < 0
InPlaneInside(t, x) == \A k \in 1..3 : ~Outer(t, k, x)
Inside(t, x) == Side(t, x) = 0 /\ InPlaneInside(t, x)

Turn(n, a, b, c) == Dot(Cross(Sub(b, a), Sub(c, a)), n)
Between(a, b, x) == Cross(Sub(b, a), Sub(x, a)) = <<0, 0, 0>> /\ Dot(Sub(x, a), Sub(x, b)) <= 0
SegSeg(n, a, b, c, d) ==                          \* all four in a plane with normal n
  \/ (~SameSide(Turn(n, a, b, c), Turn(n, a, b, d)) /\ ~SameSide(Turn(n, c, d, a), Turn(n, c, d, b))
      /\ Turn(n, a, b, c) # Turn(n, a, b, d))     \* not parallel
  \/ Between(a, b, c) \/ Between(a, b, d) \/ Between(c, d, a) \/ Between(c, d, b)

(* does the segment a b meet the triangle t *)
SegTri(a, b, t) ==
  LET sa == Side(t, a)  sb == Side(t, b) IN
  IF SameSide(sa, sb) THEN FALSE
  ELSE IF sa = 0 /\ sb = 0
  THEN Inside(t, a) \/ Inside(t, b) \/ \E k \in 1..3 : SegSeg(Normal(t), a, b, t[k], t[(k % 3) + 1])
  ELSE LET d == [k \in 1..3 |-> Det(a, b, t[k], t[(k % 3) + 1])] IN
       (\A k \in 1..3 : d[k] >= 0) \/ (\A k \in 1..3 : d[k] <= 0)

Meet(p, q) == \E k \in 1..3 : SegTri(p[k], p[(k % 3) + 1], q) \/ SegTri(q[k], q[(k % 3) + 1], p)

(* The common points of two triangles in different planes are the segment spanned by: corners of one that lie in the other, and
   points where a side of one passes through the other. In units of 1/S, rounded down. *)
S == 1000
Pierce(a, b, t) == LET sa == Side(t, a)  sb == Side(t, b)  w == sa - sb IN
  [c \in 1..3 |-> S * a[c] + (IF w > 0 THEN (S * (b[c] - a[c]) * sa) \div w ELSE (S * (b[c] - a[c]) * (-sa)) \div (-w))]
Marks1(p, q) ==
  {[c \in 1..3 |-> S * p[k][c]] : k \in {j \in 1..3 : Inside(q, p[j])}}
  \cup {Pierce(p[k], p[(k % 3) + 1], q) : k \in {j \in 1..3 : Side(q, p[j]) # Side(q, p[(j % 3) + 1])
                                                              /\ SegTri(p[j], p[(j % 3) + 1], q)}}
Marks(p, q) == Marks1(p, q) \cup Marks1(q, p)
Near(x, y) == \A c \in 1..3 : Abs(x[c] - y[c]) <= 2
Hull(x, y, z) == \A c \in 1..3 : (IF x[c] < y[c] THEN x[c] ELSE y[c]) - 2 <= z[c] /\ z[c] <= (IF x[c] < y[c] THEN y[c] ELSE x[c]) + 2
(* x y is the segment the two have in common *)
IsSegment(p, q, x, y) == LET M == Marks(p, q) IN
  /\ \E m \in M : Near(m, x)
  /\ \E m \in M : Near(m, y)
  /\ \A m \in M : Hull(x, y, m)

(* two meshes, as sequences of triangles; same: they are one mesh, where faces with a common corner are left out *)
Pairs(P, Q, fv, same) ==
  {x \in (1..Len(P)) \X (1..Len(Q)) :
     /\ same => {fv[x[1]][k] : k \in 1..3} \cap {fv[x[2]][k] : k \in 1..3} = {}
     /\ Meet(P[x[1]], Q[x[2]])}
=============================================================================
