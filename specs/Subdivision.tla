----------------------------- MODULE Subdivision -----------------------------
(* The refined mesh that linear, Catmull-Clark and Loop subdivision make of a mesh m, and where its vertices lie.
   The refined mesh p is related to m by a function phi taking every halfedge h of m to its first half: the halfedge of
   p that leaves the tail of h towards the vertex put on the edge of h. The scheme is described by how p looks around
   phi(h); phi is determined by one of its values per connected component.                                          *)
EXTENDS ManifoldMesh

RankV(m, v) == Cardinality({w \in m.V : w <= v})

(* half of h after its edge vertex *)
Half2(m, p, kind, h, g) ==
  IF m.fc[h] < 0 THEN p.nx[g]
  ELSE IF kind = "loop" THEN p.nx[p.tw[p.nx[p.tw[p.nx[g]]]]]
  ELSE p.nx[p.tw[p.nx[g]]]

RECURSIVE Close(_, _, _, _, _)
Close(m, p, kind, S, fr) ==
  LET new == UNION {LET k == Half2(m, p, kind, x[1], x[2]) IN {<<m.nx[x[1]], p.nx[k]>>, <<m.tw[x[1]], p.tw[k]>>} : x \in fr} \ S
  IN IF new = {} \/ Cardinality(S) > 2 * Cardinality(m.H) THEN S ELSE Close(m, p, kind, S \cup new, new)

(* the candidates for phi on the component of h: sets of pairs that are functions *)
PhisFrom(m, p, kind, h) ==
  {S \in {Close(m, p, kind, {<<h, g>>}, {<<h, g>>}) : g \in {y \in p.H : p.tl[y] = RankV(m, m.tl[h])}} :
     Cardinality({x[1] : x \in S}) = Cardinality(S)}

(* does p look right around phi, given as a set of pairs on a union of components? *)
LooksRight(m, p, kind, S) ==
  LET D == {x[1] : x \in S}
      phi == [h \in D |-> (CHOOSE x \in S : x[1] = h)[2]]
      h2 == [h \in D |-> Half2(m, p, kind, h, phi[h])]
      pv == [y \in D |-> CHOOSE h \in D : m.nx[h] = y]
      in == {h \in D : m.fc[h] > 0}
      newv == {p.tl[h2[h]] : h \in D}
      mid == {p.tl[p.tw[p.nx[phi[h]]]] : h \in in}
  IN /\ \A h \in D : /\ p.tl[phi[h]] = RankV(m, m.tl[h])
                     /\ p.tw[phi[h]] = h2[m.tw[h]]
                     /\ p.nx[h2[h]] = phi[m.nx[h]]
                     /\ (p.fc[phi[h]] > 0) = (h \in in)
     /\ \A h \in D \ in : p.nx[phi[h]] = h2[h] /\ p.fc[h2[h]] = p.fc[phi[h]]
     /\ Cardinality(newv) = Cardinality({m.ed[h] : h \in D})                     \* one new vertex per edge ...
     /\ newv \cap {RankV(m, v) : v \in m.V} = {}
     /\ \A h \in in :
          IF kind = "loop" THEN
            LET c == p.tw[p.nx[phi[h]]] IN
            /\ p.nx[p.nx[phi[h]]] = h2[pv[h]]                                     \* corner triangle
            /\ p.nx[p.nx[p.nx[c]]] = c /\ p.tw[p.nx[phi[m.nx[h]]]] = p.nx[c]       \* middle triangle
            /\ p.tl[p.nx[c]] = p.tl[h2[h]]
          ELSE
            /\ p.nx[p.nx[p.nx[phi[h]]]] = h2[pv[h]] /\ p.nx[h2[pv[h]]] = phi[h]    \* one quad per corner
     /\ kind # "loop" =>                                                          \* ... and per face
          /\ Cardinality(mid) = Cardinality({m.fc[h] : h \in in}) /\ mid \cap newv = {} /\ mid \cap {RankV(m, v) : v \in m.V} = {}
          /\ \A h \in in : p.tl[p.tw[p.nx[phi[h]]]] = p.tl[p.tw[p.nx[phi[m.nx[h]]]]]
     /\ Cardinality({phi[h] : h \in D} \cup {h2[h] : h \in D}) = 2 * Cardinality(D)

Sizes(m, p, kind) ==
  LET in == Cardinality({h \in m.H : m.fc[h] > 0}) IN
  /\ p.V = 1..Cardinality(p.V) /\ p.E = 1..Cardinality(p.E) /\ p.F = 1..Cardinality(p.F) /\ p.H = 1..Cardinality(p.H)
  /\ Cardinality(p.B) = Cardinality(m.B)
  /\ Cardinality(p.V) = Cardinality(m.V) + Cardinality(m.E) + (IF kind = "loop" THEN 0 ELSE Cardinality(m.F))
  /\ Cardinality(p.E) = 2 * Cardinality(m.E) + in
  /\ Cardinality(p.F) = (IF kind = "loop" THEN 4 * Cardinality(m.F) ELSE in)

-------------------------------------------------------------------------------
(* Positions. A rational vector is <<numerator, denominator>>. *)
Plus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Mul(k, a) == <<k * a[1], k * a[2], k * a[3]>>
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN <<0, 0, 0>> ELSE Plus(Head(s), SumSeq(Tail(s)))
RECURSIVE SumPos(_, _)
SumPos(S, f) == IF S = {} THEN <<0, 0, 0>> ELSE LET x == CHOOSE y \in S : TRUE IN Plus(f[x], SumPos(S \ {x}, f))
RAdd(a, b) == \* sum of two rationals
  LET g == CHOOSE k \in 1..(a[2] * b[2]) : k % a[2] = 0 /\ k % b[2] = 0 /\ \A l \in 1..(k - 1) : l % a[2] # 0 \/ l % b[2] # 0
  IN <<Plus(Mul(g \div a[2], a[1]), Mul(g \div b[2], b[1])), g>>
RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN <<<<0, 0, 0>>, 1>> ELSE RAdd(Head(s), RSum(Tail(s)))
RMul(n, d, a) == <<Mul(n, a[1]), d * a[2]>>
SetSeq(S, f) == LET RECURSIVE go(_)
                    go(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<f[x]>> \o go(T \ {x})
                IN go(S)

FacePoint(m, pos, f) == LET R == Ring(m, m.fh[f]) IN <<SumSeq([k \in 1..Len(R) |-> pos[m.tl[R[k]]]]), Len(R)>>
Ends(m, pos, h) == Plus(pos[m.tl[h]], pos[m.tl[m.tw[h]]])
OppositeV(m, h) == m.tl[m.nx[m.nx[h]]]

(* where the vertex put on the edge of h lies *)
EdgePoint(m, pos, kind, h, fp) ==
  LET t == m.tw[h]
      b == m.fc[h] < 0 \/ m.fc[t] < 0 IN
  IF b \/ kind = "linear" THEN <<Ends(m, pos, h), 2>>
  ELSE IF kind = "cc" THEN RMul(1, 4, RSum(<<fp[m.fc[h]], fp[m.fc[t]], <<Ends(m, pos, h), 1>>>>))
  ELSE <<Plus(Mul(3, Ends(m, pos, h)), Plus(pos[OppositeV(m, h)], pos[OppositeV(m, t)])), 8>>

(* where an old vertex goes *)
VertexPoint(m, pos, kind, v, fp) ==
  LET out == {h \in m.H : m.tl[h] = v}
      D == Cardinality(out)
      S == pos[v]
      bd == {h \in out : m.fc[h] < 0 \/ m.fc[m.tw[h]] < 0}
      nb == [h \in out |-> pos[m.tl[m.tw[h]]]] IN
  IF kind = "linear" THEN <<S, 1>>
  ELSE IF bd # {} THEN <<Plus(Mul(6, S), SumPos(bd, nb)), 8>>                      \* boundary curve: 1/8, 6/8, 1/8
  ELSE IF kind = "cc" THEN                                                        \* (Q + 2R + (D-3)S) / D
    RMul(1, D, RSum(<<RMul(1, D, RSum(SetSeq(out, [h \in out |-> fp[m.fc[h]]]))),
                      <<Plus(SumPos(out, nb), Mul(D, S)), D>>,                    \* 2R: R is the mean of the edge midpoints
                      <<Mul(D - 3, S), 1>>>>))
  ELSE IF D = 3 THEN <<Plus(Mul(7, S), Mul(3, SumPos(out, nb))), 16>>
  ELSE <<Plus(Mul(5 * D, S), Mul(3, SumPos(out, nb))), 8 * D>>

(* recorded values are in thousandths *)
Near(q, r) == \A c \in 1..3 : LET d == q[c] * r[2] - 1000 * r[1][c] IN d <= r[2] /\ -d <= r[2]

PositionsRight(m, p, kind, S, pos, q) ==
  LET fp == [f \in m.F |-> FacePoint(m, pos, f)] IN
  /\ \A x \in S : Near(q[p.tl[Half2(m, p, kind, x[1], x[2])]], EdgePoint(m, pos, kind, x[1], fp))
  /\ kind # "loop" => \A x \in S : m.fc[x[1]] > 0 => Near(q[p.tl[p.tw[p.nx[x[2]]]]], fp[m.fc[x[1]]])
OldRight(m, kind, pos, q) ==
  LET fp == [f \in m.F |-> FacePoint(m, pos, f)] IN
  \A v \in m.V : Near(q[RankV(m, v)], VertexPoint(m, pos, kind, v, fp))
=============================================================================
