----------------------------- MODULE GraphTrace -----------------------------
(* Shortest paths over the edge graph of a mesh with whole edge lengths. A line "init" describes the graph; "path" and
   "ball" lines are answers of shortestEdgePath and vertexDijkstraDistanceWithinRadius for it. Distances are specified
   as the fixed point of relaxation. On general meshes a path is made of halfedges, so only their direction counts.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>

SeqSet(s) == {s[k] : k \in 1..Len(s)}
Inf == 1000000
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

\* arcs: a set of <<tail, tip, length>>
RECURSIVE Relax(_, _, _)
Relax(V, into, d) ==
  LET d2 == [v \in V |-> Min({d[v]} \cup {d[a[1]] + a[3] : a \in into[v]})] IN
  IF d2 = d THEN d ELSE Relax(V, into, d2)
Dist(V, arcs, s) == Relax(V, [v \in V |-> {a \in arcs : a[2] = v}], [v \in V |-> IF v = s THEN 0 ELSE Inf])

HalfedgeArcs(g) == {<<g.tl[h], g.tp[h], g.len[g.ed[h]]>> : h \in SeqSet(g.H)}
EdgeArcs(g) == {<<g.ea[e], g.eb[e], g.len[e]>> : e \in SeqSet(g.E)} \cup {<<g.eb[e], g.ea[e], g.len[e]>> : e \in SeqSet(g.E)}

RECURSIVE Total(_, _)
Total(g, r) == IF r = <<>> THEN 0 ELSE g.len[g.ed[r[1]]] + Total(g, Tail(r))

PathFails(g, e) ==
  LET d == Dist(SeqSet(g.V), HalfedgeArcs(g), e.a)[e.b]
      r == e.r  n == Len(e.r) IN
  IF (n = 0) # (e.a = e.b \/ d >= Inf) THEN {"empty exactly when there is nothing to walk"}
  ELSE IF n = 0 THEN {}
  ELSE IF ~(\A k \in 1..n : r[k] \in SeqSet(g.H)) THEN {"path of live halfedges"}
  ELSE (IF g.tl[r[1]] = e.a /\ g.tp[r[n]] = e.b /\ (\A k \in 1..(n - 1) : g.tp[r[k]] = g.tl[r[k + 1]]) THEN {} ELSE {"head-to-tail chain between the ends"})
       \cup (IF Total(g, r) = d THEN {} ELSE {"minimal length"})

BallFails(g, e) ==
  LET V == SeqSet(g.V)
      d == Dist(V, EdgeArcs(g), e.a)
      got == {x[1] : x \in SeqSet(e.r)} IN
  (IF got = {v \in V : d[v] <= e.rad} /\ Cardinality(got) = Len(e.r) THEN {} ELSE {"exactly the vertices within the radius"})
  \cup (IF \A x \in SeqSet(e.r) : x[1] \in V => x[2] = 16 * d[x[1]] THEN {} ELSE {"distances within the radius"})

Fails(n) ==
  LET e == Trace[n] IN
  CASE e.op = "crash" -> {"no crash or hang (" \o e.why \o ")"}
    [] e.op = "path" -> PathFails(Trace[e.p].g, e)
    [] e.op = "ball" -> BallFails(Trace[e.p].g, e)
    [] OTHER -> {}

Init == i = 0 /\ bad = {}
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET f == Fails(i + 1) IN
     IF f = {} THEN bad' = bad ELSE PrintT(<<"FAIL", i + 1, f>>) /\ bad' = bad \cup {i + 1}
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
