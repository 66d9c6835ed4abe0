-------------------------------- MODULE Soup --------------------------------
(* Polygon soups: a list of points, a list of faces (point numbers from 0) and optionally a coordinate per corner.
   Each clean-up is a relation between the soup before and after. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

HasUV(m) == Len(m.uv) > 0
\* a face with everything that belongs to it
FaceOf(m, f) == [v |-> m.polys[f], uv |-> IF HasUV(m) THEN m.uv[f] ELSE <<>>]
Faces(m) == [f \in 1..Len(m.polys) |-> FaceOf(m, f)]
WellFormed(m) == HasUV(m) => (/\ Len(m.uv) = Len(m.polys)
                              /\ \A f \in 1..Len(m.polys) : Len(m.uv[f]) = Len(m.polys[f]))
\* the soup with these faces, without touching the points
WithFaces(m, F, post) ==
  /\ post.pts = m.pts
  /\ post.polys = [k \in 1..Len(F) |-> F[k].v]
  /\ post.uv = IF HasUV(m) THEN [k \in 1..Len(F) |-> F[k].uv] ELSE <<>>

Repeats(s) == Cardinality(Range(s)) # Len(s)
Beyond(m, s) == \E v \in Range(s) : v >= Len(m.pts)

\* --- vertices
SameGeometry(m, post) ==
  /\ Len(post.polys) = Len(m.polys)
  /\ post.uv = m.uv
  /\ \A f \in 1..Len(m.polys) :
       /\ Len(post.polys[f]) = Len(m.polys[f])
       /\ \A k \in 1..Len(m.polys[f]) : /\ post.polys[f][k] < Len(post.pts)
                                         /\ post.pts[post.polys[f][k] + 1] = m.pts[m.polys[f][k] + 1]
Merged(m, post) == /\ SameGeometry(m, post)
                   /\ ~Repeats(post.pts)
                   /\ Range(post.pts) = Range(m.pts)
Used(m) == UNION {Range(m.polys[f]) : f \in 1..Len(m.polys)}
UnusedStripped(m, post, map) ==
  LET kept == {v \in 0..(Len(m.pts) - 1) : map[v + 1] >= 0} IN
  /\ Len(map) = Len(m.pts)
  /\ kept = Used(m)
  /\ Len(post.pts) = Cardinality(kept)
  /\ {map[v + 1] : v \in kept} = 0..(Len(post.pts) - 1)
  /\ \A v \in kept : post.pts[map[v + 1] + 1] = m.pts[v + 1]
  /\ post.polys = [f \in 1..Len(m.polys) |-> [k \in 1..Len(m.polys[f]) |-> map[m.polys[f][k] + 1]]]
  /\ post.uv = m.uv

\* --- faces
InvalidStripped(m, post) ==
  WithFaces(m, SelectSeq(Faces(m), LAMBDA F : Len(F.v) >= 3 /\ ~Beyond(m, F.v) /\ ~Repeats(F.v)), post)
RepeatingStripped(m, post) == WithFaces(m, SelectSeq(Faces(m), LAMBDA F : ~Repeats(F.v)), post)

\* one face of each vertex set stays, any of them, and the rest keeps its order
DuplicatesStripped(m, post) ==
  LET groups == {{f \in 1..Len(m.polys) : Range(m.polys[f]) = s} : s \in {Range(m.polys[f]) : f \in 1..Len(m.polys)}}
      \* the originals a remaining face may be
      from(k) == {f \in 1..Len(m.polys) : FaceOf(m, f) = FaceOf(post, k)}
      \* the first fit in order
      RECURSIVE Fits(_, _)
      Fits(k, last) == IF k > Len(post.polys) THEN TRUE
                       ELSE LET c == {f \in from(k) : f > last} IN
                            c # {} /\ Fits(k + 1, CHOOSE f \in c : \A g \in c : f <= g)
  IN /\ post.pts = m.pts
     /\ (HasUV(m) /\ Len(m.polys) > 0) => Len(post.uv) = Len(post.polys)
     /\ ~HasUV(m) => ~HasUV(post)
     /\ Len(post.polys) = Cardinality(groups)
     /\ {Range(post.polys[k]) : k \in 1..Len(post.polys)} = {Range(m.polys[f]) : f \in 1..Len(m.polys)}
     /\ Fits(1, 0)

Fan(F) == [k \in 1..(Len(F.v) - 2) |->
            [v |-> <<F.v[1], F.v[k + 1], F.v[k + 2]>>,
             uv |-> IF F.uv = <<>> THEN <<>> ELSE <<F.uv[1], F.uv[k + 1], F.uv[k + 2]>>]]
Triangulated(m, post) == WithFaces(m, FlattenSeq([f \in 1..Len(m.polys) |-> Fan(FaceOf(m, f))]), post)

\* --- orientation
Rot(s, k) == [i \in 1..Len(s) |-> s[((i - 1 + k) % Len(s)) + 1]]
Corners(F) == [i \in 1..Len(F.v) |-> <<F.v[i], IF F.uv = <<>> THEN 0 ELSE F.uv[i]>>]
SameUpTo(F, G) == Len(F.v) = Len(G.v) /\ Len(F.uv) = Len(G.uv) /\ \E k \in 0..Len(F.v) : Rot(Corners(F), k) = Corners(G)
Flip(F) == [v |-> Reverse(F.v), uv |-> Reverse(F.uv)]
Sides(s) == {<<s[k], s[(k % Len(s)) + 1]>> : k \in 1..Len(s)}
OnlyReversals(m, post) ==
  /\ post.pts = m.pts
  /\ Len(post.polys) = Len(m.polys) /\ Len(post.uv) = Len(m.uv)
  /\ \A f \in 1..Len(m.polys) : SameUpTo(FaceOf(m, f), FaceOf(post, f)) \/ SameUpTo(Flip(FaceOf(m, f)), FaceOf(post, f))

\* pairs of faces <<f, g, agree>> on the two sides of an edge that no other face uses
Pairs(polys) ==
  LET n == Len(polys)
      S == [f \in 1..n |-> Sides(polys[f])]
      users(a, b) == {f \in 1..n : <<a, b>> \in S[f] \/ <<b, a>> \in S[f]}
      E == {<<s[1], s[2]>> : s \in {t \in UNION {S[f] \cup {<<t2[2], t2[1]>> : t2 \in S[f]} : f \in 1..n} : t[1] < t[2]}}
      two == {e \in E : Cardinality(users(e[1], e[2])) = 2}
  IN {LET u == users(e[1], e[2])
          f == CHOOSE x \in u : TRUE
          g == CHOOSE x \in u : x # f
      IN <<f, g, ~(\/ (e \in S[f] /\ e \in S[g]) \/ (<<e[2], e[1]>> \in S[f] /\ <<e[2], e[1]>> \in S[g]))>> : e \in two}

\* signed faces reachable from <<f, 0>>, where a second component of 1 is the reversed face
RECURSIVE Grow(_, _)
Grow(P, X) ==
  LET Y == X \cup {<<p[2], IF p[3] THEN x[2] ELSE 1 - x[2]>> : <<p, x>> \in {<<p, x>> \in P \X X : p[1] = x[1]}}
             \cup {<<p[1], IF p[3] THEN x[2] ELSE 1 - x[2]>> : <<p, x>> \in {<<p, x>> \in P \X X : p[2] = x[1]}}
  IN IF Y = X THEN X ELSE Grow(P, Y)
Oriented(m, post) ==
  LET P == Pairs(m.polys) Q == Pairs(post.polys) IN
  \A q \in Q : q[3] \/ LET X == Grow(P, {<<q[1], 0>>}) IN <<q[1], 1>> \in X

\* six times the volume enclosed by the faces in F
Det(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1]) + a[3] * (b[1] * c[2] - b[2] * c[1])
RECURSIVE Volume(_, _)
Volume(m, F) == IF F = {} THEN 0
                ELSE LET f == CHOOSE x \in F : TRUE
                     IN Det(m.pts[m.polys[f][1] + 1], m.pts[m.polys[f][2] + 1], m.pts[m.polys[f][3] + 1]) + Volume(m, F \ {f})
Outward(m, post) ==
  LET P == Pairs(m.polys) IN
  \A f \in 1..Len(post.polys) : Volume(post, {x[1] : x \in Grow(P, {<<f, 0>>})}) > 0

\* --- union
RECURSIVE Offset(_, _)
Offset(parts, k) == IF k <= 1 THEN 0 ELSE Len(parts[k - 1].pts) + Offset(parts, k - 1)
United(parts, post) ==
  /\ post.pts = FlattenSeq([k \in 1..Len(parts) |-> parts[k].pts])
  /\ post.polys = FlattenSeq([k \in 1..Len(parts) |-> [f \in 1..Len(parts[k].polys) |->
                     [c \in 1..Len(parts[k].polys[f]) |-> parts[k].polys[f][c] + Offset(parts, k)]]])
  /\ post.uv = IF \A k \in 1..Len(parts) : HasUV(parts[k]) THEN FlattenSeq([k \in 1..Len(parts) |-> parts[k].uv]) ELSE <<>>
=============================================================================
