------------------------------ MODULE Neighbors ------------------------------
(* Nearest-neighbour queries on a sequence of points with whole-number coordinates, and point clouds: a cloud is a set of
   live identifiers with a value attached to each.                                                                *)
EXTENDS Integers, Sequences, FiniteSets

Sq(x) == x * x
D2(a, b) == Sq(a[1] - b[1]) + Sq(a[2] - b[2]) + Sq(a[3] - b[3])
Set(s) == {s[k] : k \in 1..Len(s)}

(* r lists k different points among cand, nearest first, and no point left out is nearer than one listed *)
Nearest(pts, cand, q, k, r) ==
  /\ Len(r) = k /\ Cardinality(Set(r)) = k /\ Set(r) \subseteq cand
  /\ \A j \in 1..(k - 1) : D2(pts[r[j]], q) <= D2(pts[r[j + 1]], q)
  /\ k > 0 => \A o \in cand \ Set(r) : D2(pts[o], q) >= D2(pts[r[k]], q)
(* radius rad + 1/4: for whole squared distances, d2 < (rad + 1/4)^2 <=> 16 d2 < (4 rad + 1)^2 *)
Ball(pts, q, rad) == {o \in 1..Len(pts) : 16 * D2(pts[o], q) < Sq(4 * rad + 1)}

-------------------------------------------------------------------------------
(* A cloud: live identifiers in increasing order, with values. *)
NewPoint(s, id, v) == [live |-> Append(s.live, id), val |-> Append(s.val, v)]
RECURSIVE Without(_, _, _)
Without(live, seq, id) ==
  IF live = <<>> THEN <<>>
  ELSE (IF Head(live) = id THEN <<>> ELSE <<Head(seq)>>) \o Without(Tail(live), Tail(seq), id)
Delete(s, id) == [live |-> Without(s.live, s.live, id), val |-> Without(s.live, s.val, id)]
Compressed(s) == [live |-> [k \in 1..Len(s.live) |-> k], val |-> s.val]
(* what every cloud says about itself *)
Consistent(s) ==
  /\ s.n = Len(s.live) /\ s.ind = [k \in 1..Len(s.live) |-> k - 1] /\ s.ok = "" /\ s.cap >= s.n
  /\ \A k \in 1..Len(s.live) : s.live[k] <= s.cap
  /\ s.comp => s.live = [k \in 1..Len(s.live) |-> k]
=============================================================================
