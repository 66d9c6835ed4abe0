------------------------------ MODULE LevelSets ------------------------------
(* The level set of a function that is linear on every triangle of an oriented mesh. m.fv[f], m.fe[f]: corners and sides of face f
   in order (side k runs from corner k to the next), m.et[e]: the two ends of edge e; u[v]: the function; lv: the level.
   The level set is a set of segments, one in each face that it passes through; a segment joins two nodes, each the vertex
   <<0, v>> or the single point <<1, e>> of edge e where the function takes the level, and the function increases to its right.
   A segment that runs along an edge belongs to the faces on both sides and is drawn once. A face where the function is
   constantly at the level is no part of the (one-dimensional) level set.                                          *)
EXTENDS Integers, Sequences, FiniteSets

Nx(k) == (k % 3) + 1
Pv(k) == ((k + 1) % 3) + 1
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
S3(m, u, lv, f) == [k \in 1..3 |-> Sgn(u[m.fv[f][k]] - lv)]

(* going round a face counterclockwise, a segment starts where the function begins to exceed the level ... *)
Starts(m, u, lv, f) == LET s == S3(m, u, lv, f) IN
  {<<0, m.fv[f][k]>> : k \in {j \in 1..3 : s[j] = 0 /\ (s[Nx(j)] > 0 \/ s[Pv(j)] < 0) /\ ~(s[Nx(j)] = s[Pv(j)])}}
  \cup {<<1, m.fe[f][k]>> : k \in {j \in 1..3 : s[j] < 0 /\ s[Nx(j)] > 0}}
(* ... and ends where it stops to *)
Ends(m, u, lv, f) == LET s == S3(m, u, lv, f) IN
  {<<0, m.fv[f][k]>> : k \in {j \in 1..3 : s[j] = 0 /\ (s[Nx(j)] < 0 \/ s[Pv(j)] > 0) /\ ~(s[Nx(j)] = s[Pv(j)])}}
  \cup {<<1, m.fe[f][k]>> : k \in {j \in 1..3 : s[j] > 0 /\ s[Nx(j)] < 0}}
Flat(m, u, lv, f) == \A k \in 1..3 : u[m.fv[f][k]] = lv
Along(m, u, lv, f) == {k \in 1..3 : u[m.fv[f][k]] = lv /\ u[m.fv[f][Nx(k)]] = lv}
Solid(m, u, lv) == {f \in 1..Len(m.fv) : ~Flat(m, u, lv, f) /\ Starts(m, u, lv, f) # {}}
Across(m, u, lv) == {f \in Solid(m, u, lv) : Along(m, u, lv, f) = {}}
Seg(m, u, lv, f) == <<CHOOSE a \in Starts(m, u, lv, f) : TRUE, CHOOSE b \in Ends(m, u, lv, f) : TRUE>>
LevelEdges(m, u, lv) == {m.fe[f][CHOOSE k \in Along(m, u, lv, f) : TRUE] : f \in Solid(m, u, lv) \ Across(m, u, lv)}
(* the directions in which the segment along an edge may be drawn *)
Dirs(m, u, lv, e) == {Seg(m, u, lv, f) : f \in {g \in Solid(m, u, lv) : Along(m, u, lv, g) # {} /\ \E k \in 1..3 : m.fe[g][k] = e}}

Flip(s) == <<s[2], s[1]>>
(* D: the drawn segments, a sequence of pairs of nodes *)
CountS(D, s) == Cardinality({k \in 1..Len(D) : D[k] = s})
Complete(m, u, lv, D) ==
  LET A == Across(m, u, lv)  L == LevelEdges(m, u, lv) IN
  /\ \A s \in {D[k] : k \in 1..Len(D)} \cup {Seg(m, u, lv, f) : f \in A} \cup UNION {Dirs(m, u, lv, e) : e \in L} :
       LET crossing == Cardinality({f \in A : Seg(m, u, lv, f) = s})
           may == Cardinality({e \in L : s \in Dirs(m, u, lv, e)})
           must == Cardinality({e \in L : Dirs(m, u, lv, e) = {s}})
       IN crossing + must <= CountS(D, s) /\ CountS(D, s) <= crossing + may
  /\ Len(D) = Cardinality(A) + Cardinality(L)

(* where a point reported as <<1, e, t>> (in units of 1/U) must lie *)
U == 100000
T(m, u, lv, e) == LET a == u[m.et[e][1]]  b == u[m.et[e][2]] IN
  IF b > a THEN ((lv - a) * U) \div (b - a) ELSE ((a - lv) * U) \div (a - b)
Node(m, p) == IF p[1] = 0 THEN <<0, p[2]>>
              ELSE IF p[3] = 0 THEN <<0, m.et[p[2]][1]>> ELSE IF p[3] = U THEN <<0, m.et[p[2]][2]>> ELSE <<1, p[2]>>
AtLevel(m, u, lv, p) ==
  LET n == Node(m, p) IN
  IF n[1] = 0 THEN u[n[2]] = lv
  ELSE LET a == u[m.et[n[2]][1]]  b == u[m.et[n[2]][2]] IN
       /\ (a < lv /\ lv < b) \/ (b < lv /\ lv < a)
       /\ p[3] - T(m, u, lv, n[2]) \in {0, 1}
BdEdge(m, e) == Cardinality({x \in (1..Len(m.fv)) \X (1..3) : m.fe[x[1]][x[2]] = e}) = 1
(* C: the curves, sequences of nodes. Two open curves never fit together, and where no vertex is at the level, an open curve ends
   at the boundary. *)
Maximal(m, u, lv, C) ==
  /\ \A c, d \in 1..Len(C) : c # d => C[c][Len(C[c])] # C[d][1]
  /\ (\A v \in 1..Len(u) : u[v] # lv) =>
       \A c \in 1..Len(C) : C[c][1] = C[c][Len(C[c])] \/ (BdEdge(m, C[c][1][2]) /\ BdEdge(m, C[c][Len(C[c])][2]))
=============================================================================
