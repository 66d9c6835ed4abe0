----------------------------- MODULE NormalCurves -----------------------------
(* Which intrinsic edges each input edge crosses, and how flips, splits, insertions and removals change that (C14).

   The input edges are drawn on the intrinsic triangulation as curves. A curve is a sequence of pieces; a piece is either <<-h>>, following
   the intrinsic halfedge h, or the sequence of halfedges it crosses, each leaving the face the halfedge belongs to. The ends of the pieces
   are vertices: the ends of the input edge, and between two pieces a vertex that was inserted on that input edge.

   A state s has the connectivity (s.nx next, s.tv tail, s.fc face or 0, s.vh; 0 where nothing lives), the curve s.w[k] of every input halfedge k with
   the position s.ix[k] of every crossing along the halfedge crossed (counted from its tail), and what the data structure stores: crossing
   counts s.n (-1: lies along an input edge), roundabouts s.rb, s.rd and locations s.loc (<<1, vertex>>, <<2, edge>>, <<3, face>>).
   s.bi holds pieces traced both ways from a crossing: <<curve, piece, crossing it started at, crossing reported>>, halfedges, positions.
   Twins are 2e-1, 2e. *)
EXTENDS Integers, Sequences, FiniteSets

T(h) == IF h % 2 = 1 THEN h + 1 ELSE h - 1
E(h) == (h + 1) \div 2
Pv(s, h) == s.nx[s.nx[h]]                \* previous halfedge of a triangle
Live(s) == {h \in 1..Len(s.nx) : s.nx[h] # 0}
LiveV(s) == {v \in 1..Len(s.vh) : s.vh[v] # 0}
Inside(s, h) == s.fc[h] # 0
Along(c) == c[1] < 0
From(s, c) == IF Along(c) THEN s.tv[-c[1]] ELSE s.tv[Pv(s, c[1])]
To(s, c) == IF Along(c) THEN s.tv[T(-c[1])] ELSE s.tv[Pv(s, T(c[Len(c)]))]
Pos(a) == IF a > 0 THEN a ELSE 0
Rev(c) == [j \in 1..Len(c) |-> c[Len(c) + 1 - j]]

-----------------------------------------------------------------------------
(* What every state has to satisfy. g: the input mesh (inx, itv, ivh, ifi). *)

\* input halfedges leaving v, counterclockwise, starting at its first one
RECURSIVE FanFrom(_, _, _)
FanFrom(g, h, acc) == LET n == T(g.inx[g.inx[h]]) IN
                      IF g.ifi[h] = 0 THEN Append(acc, h)
                      ELSE IF n = g.ivh[g.itv[h]] THEN Append(acc, h) ELSE FanFrom(g, n, Append(acc, h))
Fan(g, v) == FanFrom(g, g.ivh[v], <<>>)

ChainOK(g, s, k) ==
  LET w == s.w[k] IN
  /\ Len(w) >= 1 /\ From(s, w[1]) = g.itv[k] /\ To(s, w[Len(w)]) = g.itv[T(k)]
  /\ \A q \in 1..Len(w) - 1 : To(s, w[q]) = From(s, w[q + 1]) /\ s.loc[To(s, w[q])] = <<2, E(k)>>
  /\ {To(s, w[q]) : q \in 1..Len(w) - 1} = {v \in LiveV(s) : s.loc[v] = <<2, E(k)>>}
  /\ Len(w) - 1 = Cardinality({v \in LiveV(s) : s.loc[v] = <<2, E(k)>>})

StepsOK(s, c, x) ==
  IF Along(c) THEN Len(c) = 1 /\ -c[1] \in Live(s)
  ELSE /\ \A j \in 1..Len(c) : c[j] \in Live(s) /\ Inside(s, c[j]) /\ Inside(s, T(c[j])) /\ x[j] \in 0..s.n[E(c[j])] - 1
       /\ \A j \in 1..Len(c) - 1 : \/ c[j + 1] = s.nx[T(c[j])] /\ x[j + 1] = x[j]
                                   \/ c[j + 1] = Pv(s, T(c[j])) /\ s.n[E(c[j + 1])] - x[j + 1] = s.n[E(c[j])] - x[j]

PiecesOK(s, k) == /\ Len(s.ix[k]) = Len(s.w[k])
                  /\ \A q \in 1..Len(s.w[k]) : /\ Len(s.w[k][q]) >= 1 /\ Len(s.ix[k][q]) = Len(s.w[k][q])
                                               /\ StepsOK(s, s.w[k][q], s.ix[k][q])

ReverseOK(s, k) ==
  LET a == s.w[k]  b == s.w[T(k)]  n == Len(a) IN
  /\ Len(b) = n
  /\ \A q \in 1..n : LET c == a[q]  d == b[n + 1 - q] IN
       IF Along(c) THEN d = <<-T(-c[1])>>
       ELSE /\ Len(d) = Len(c)
            /\ \A j \in 1..Len(c) : d[Len(c) + 1 - j] = T(c[j])
                                    /\ s.ix[T(k)][n + 1 - q][Len(c) + 1 - j] = s.n[E(c[j])] - 1 - s.ix[k][q][j]

\* every crossing the counts promise is made by exactly one input edge, and nothing else is
Places(s) == UNION {{<<E(s.w[k][q][j]), IF s.w[k][q][j] % 2 = 1 THEN s.ix[k][q][j] ELSE s.n[E(s.w[k][q][j])] - 1 - s.ix[k][q][j]>> :
                      j \in {j \in 1..Len(s.w[k][q]) : ~Along(s.w[k][q])}} :
                    <<k, q>> \in {p \in (1..Len(s.w)) \X (1..20) : p[1] % 2 = 1 /\ p[2] <= Len(s.w[p[1]])}}
RECURSIVE SumF(_, _)
SumF(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumF(f, n - 1)
Crossings(s) == SumF([k \in 1..Len(s.w) |-> IF k % 2 = 0 THEN 0
                       ELSE SumF([q \in 1..Len(s.w[k]) |-> IF Along(s.w[k][q]) THEN 0 ELSE Len(s.w[k][q])], Len(s.w[k]))], Len(s.w))
SharedBy(s, e) == Cardinality({<<k, q>> \in (1..Len(s.w)) \X (1..20) :
                    k % 2 = 1 /\ q <= Len(s.w[k]) /\ Along(s.w[k][q]) /\ E(-s.w[k][q][1]) = e})
LiveE(s) == {e \in 1..Len(s.n) : s.nx[2 * e] # 0}
CountsOK(s) ==
  LET P == Places(s)  tot == SumF([e \in 1..Len(s.n) |-> IF e \in LiveE(s) THEN Pos(s.n[e]) ELSE 0], Len(s.n)) IN
  /\ \A p \in P : p[1] \in LiveE(s) /\ p[2] \in 0..s.n[p[1]] - 1
  /\ Cardinality(P) = tot /\ Crossings(s) = tot
  /\ \A e \in LiveE(s) : s.n[e] >= -1 /\ SharedBy(s, e) = (IF s.n[e] = -1 THEN 1 ELSE 0)
  /\ s.sv = Cardinality(LiveV(s)) + tot

Sh(s, h) == IF s.n[E(h)] = -1 THEN 1 ELSE 0
AroundOK(g, s, v) ==
  IF s.loc[v][1] # 1 THEN s.rd[v] = 0
  ELSE LET F == Fan(g, v)  D == Len(F) IN
       /\ s.loc[v] = <<1, v>> /\ s.rd[v] = D
       /\ \A r \in 1..D : LET c == s.w[F[r]][1]  x == s.ix[F[r]][1]  h == IF Along(c) THEN -c[1] ELSE Pv(s, c[1]) IN
            IF Along(c) THEN s.rb[h] = r - 1
            ELSE (s.rb[h] + Sh(s, h) + x[1] - Pos(s.n[E(h)])) % D = r - 1
       /\ \A h \in {h \in Live(s) : s.tv[h] = v /\ Inside(s, h)} :
            s.rb[T(Pv(s, h))] = (s.rb[h] + Sh(s, h) + Cardinality({r \in 1..D : s.w[F[r]][1][1] = s.nx[h]})) % D

Chk(c, name) == IF c THEN {} ELSE {name}
StateFails(g, s) ==
  LET K == 1..Len(s.w)
      p == Chk(Len(s.w) = Len(g.inx) /\ (\A k \in K : PiecesOK(s, k)), "traced curves cross faces of the triangulation one after the other") IN
  IF p # {} THEN p
  ELSE Chk(\A k \in K : ChainOK(g, s, k), "the curve of an input edge runs from its tail to its tip, through the vertices inserted on it")
       \cup Chk(\A k \in K : ReverseOK(s, k), "both directions of an input edge trace the same curve")
       \cup Chk(CountsOK(s), "each crossing count is the number of times input edges cross the edge")
       \cup Chk(\A v \in LiveV(s) : AroundOK(g, s, v), "roundabouts point at the next input edge around the vertex")
       \cup Chk(\A j \in 1..Len(s.bi) : LET b == s.bi[j]  k == b[1][1]  q == b[1][2] IN
                  b[1][3] = b[1][4] /\ b[2] = s.w[k][q] /\ b[3] = s.ix[k][q], "a curve traced both ways from one of its crossings is the whole curve")
       \cup Chk(\A k \in K : s.id[k] = k, "a traced curve is identified as the input edge it came from")

StartFails(s) == Chk(\A k \in 1..Len(s.w) : s.w[k] = <<<<-k>>>>, "at first every input edge follows its own intrinsic edge")

-----------------------------------------------------------------------------
(* Flip of edge e: t gives the connectivity afterwards. *)
FlipPiece(s, t, e, c) ==
  LET h0 == 2 * e - 1   g0 == 2 * e
      s1 == s.nx[h0]  s2 == s.nx[s1]  s3 == s.nx[g0]  s4 == s.nx[s3]
      we == t.nx[s3]  ew == t.nx[s1]   \* the new diagonal, seen from the tail's side and from the tip's side
      Side(h) == IF h \in {s2, s3} THEN "w" ELSE IF h \in {s1, s4} THEN "e" ELSE "-"
      Corner(h) == CASE h \in {h0, s3} -> "w" [] h \in {s1, g0} -> "e" [] h \in {s2, s4} -> "d" [] OTHER -> "-"
      Out(h) == h \notin {h0, g0}
      m == SelectSeq(c, Out)
      n == Len(m)
      A(q) == IF q = 0 THEN Corner(Pv(s, c[1])) ELSE Side(T(m[q]))
      B(q) == IF q = n THEN Corner(Pv(s, T(c[Len(c)]))) ELSE Side(m[q + 1])
      Ins(q) == CASE A(q) = "w" /\ B(q) = "e" -> <<we>> [] A(q) = "e" /\ B(q) = "w" -> <<ew>> [] OTHER -> <<>>
      G[q \in 0..n] == IF q = 0 THEN Ins(0) ELSE G[q - 1] \o <<m[q]>> \o Ins(q)
  IN IF Along(c) THEN (CASE -c[1] = h0 -> <<we>> [] -c[1] = g0 -> <<ew>> [] OTHER -> c)
     ELSE IF n = 0 /\ A(0) = "d" /\ B(0) = "d" THEN <<IF Pv(s, c[1]) = s2 THEN -ew ELSE -we>>
     ELSE G[n]
FlipOK(s, t, e) ==
  LET h0 == 2 * e - 1  g0 == 2 * e IN
  /\ Len(t.w) = Len(s.w)
  /\ t.nx[s.nx[h0]] \in {h0, g0} /\ t.nx[s.nx[g0]] = T(t.nx[s.nx[h0]])
  /\ \A k \in 1..Len(s.w) : t.w[k] = [q \in 1..Len(s.w[k]) |-> FlipPiece(s, t, e, s.w[k][q])]

-----------------------------------------------------------------------------
(* Insertions and removals: forgetting the edges of the inserted vertex gives back the curves there were. *)
Spokes(s, v) == {h \in Live(s) : s.tv[h] = v \/ s.tv[T(h)] = v}
Forget(S, c) == LET Keep(h) == h \notin S IN SelectSeq(c, Keep)
SplitFaceOK(s, t, v) ==
  /\ v \notin LiveV(s) /\ LiveV(t) = LiveV(s) \cup {v} /\ t.loc[v][1] \in {2, 3}
  /\ LET S == Spokes(t, v) IN
     /\ Cardinality(S) = 6 /\ \A h \in S : t.n[E(h)] >= 0
     /\ \A k \in 1..Len(s.w) : [q \in 1..Len(t.w[k]) |-> Forget(S, t.w[k][q])] = s.w[k]
RECURSIVE Weld(_, _, _, _, _)
Weld(s, S, v, w, acc) ==   \* pieces that meet at v become one
  IF w = <<>> THEN acc
  ELSE LET Keep(x) == (IF x < 0 THEN -x ELSE x) \notin S  c == SelectSeq(Head(w), Keep)  n == Len(acc) IN
       IF n > 0 /\ From(s, Head(w)) = v THEN Weld(s, S, v, Tail(w), [acc EXCEPT ![n] = @ \o c]) ELSE Weld(s, S, v, Tail(w), Append(acc, c))
RemoveOK(s, t, v) ==
  /\ v \in LiveV(s) /\ LiveV(t) = LiveV(s) \ {v} /\ s.loc[v][1] # 1
  /\ LET S == Spokes(s, v) IN
     /\ Cardinality(S) = 6 /\ Live(t) = Live(s) \ S
     /\ \A k \in 1..Len(s.w) : Weld(s, S, v, s.w[k], <<>>) = t.w[k]

\* halfedge h is split at v; r: the half that leaves v in the direction of h
Halves(s, t, h) ==   \* <<into v, out of v>> on the line of h
  IF Inside(s, h) THEN <<t.nx[Pv(s, h)], Pv(t, s.nx[h])>> ELSE <<T(Pv(t, s.nx[T(h)])), T(t.nx[Pv(s, T(h))])>>
RECURSIVE Join(_, _)
Join(w, acc) == IF w = <<>> THEN acc
                ELSE IF acc # <<>> /\ Along(Head(w)) /\ acc[Len(acc)] = Head(w) THEN Join(Tail(w), acc) ELSE Join(Tail(w), Append(acc, Head(w)))
SplitEdgeOK(s, t, h, v, r) ==
  LET a == Halves(s, t, h)  b == Halves(s, t, T(h))
      line == {a[1], a[2], b[1], b[2]}
      S == Spokes(t, v) \ line
      M(x) == IF x \in {a[1], a[2]} THEN h ELSE IF x \in {b[1], b[2]} THEN T(h) ELSE x
      MM(x) == IF x < 0 THEN -M(-x) ELSE M(x)
      Back(c) == LET d == Forget(S, c) IN [j \in 1..Len(d) |-> MM(d[j])]
      e == E(h)
      onEdge == IF s.n[e] = -1 THEN {k \in 1..Len(s.w) : \E q \in 1..Len(s.w[k]) : s.w[k][q] = <<-h>> \/ s.w[k][q] = <<-T(h)>>} ELSE {}
  IN
  /\ v \notin LiveV(s) /\ LiveV(t) = LiveV(s) \cup {v}
  /\ a[1] = T(b[2]) /\ a[2] = T(b[1]) /\ t.tv[a[2]] = v /\ t.tv[b[2]] = v
  /\ r = a[2]
  /\ Cardinality(S) = (IF Inside(s, h) /\ Inside(s, T(h)) THEN 4 ELSE 2)
  /\ t.loc[v][1] \in {2, 3} /\ \A k \in onEdge : t.loc[v] = <<2, E(k)>>
  /\ \A x \in line : (t.n[E(x)] = -1) = (s.n[e] = -1)
  /\ \A k \in 1..Len(s.w) :
       /\ Len(t.w[k]) = Len(s.w[k]) + (IF k \in onEdge THEN 1 ELSE 0)
       /\ Join([q \in 1..Len(t.w[k]) |-> Back(t.w[k][q])], <<>>) = s.w[k]
=============================================================================
