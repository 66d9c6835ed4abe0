----------------------------- MODULE MeshBundles -----------------------------
(* A saved mesh bundle: a mesh, the order of its elements, and named properties, each a list of values in the order of
   the elements of one kind. Saving puts properties into the bundle (a later property of the same kind and name takes
   the place of an earlier one); reading asks for a property by kind, name and number type.                           *)
EXTENDS Naturals, Sequences, FiniteSets

Kinds == {"vertex", "halfedge", "corner", "edge", "face", "boundaryloop"}
Types == {"char", "uchar", "short", "ushort", "int", "uint", "float", "double"}
Sort(t) == IF t \in {"float", "double"} THEN "real" ELSE IF t \in {"uchar", "ushort", "uint"} THEN "natural" ELSE "integer"
Width(t) == CASE t \in {"char", "uchar"} -> 1 [] t \in {"short", "ushort"} -> 2 [] t \in {"int", "uint", "float"} -> 4 [] t = "double" -> 8
\* a stored number may be asked for as its own type or a wider one of the same sort; neither changes its value
Readable(stored, wanted) == stored = wanted \/ (Sort(stored) = Sort(wanted) /\ Width(stored) < Width(wanted))

\* how many elements of a kind there are
CountOf(c, k) == CASE k = "vertex" -> c.nV [] k = "halfedge" -> c.nH [] k = "corner" -> c.nC [] k = "edge" -> c.nE
                   [] k = "face" -> c.nF [] k = "boundaryloop" -> c.nB

Found(props, k, n) == {j \in 1..Len(props) : props[j].k = k /\ props[j].n = n}
LastOf(S) == CHOOSE j \in S : \A l \in S : l <= j
\* what reading a property on a mesh with the given counts gives: its values, or an error
Query(props, c, k, n, t) ==
  LET S == Found(props, k, n) IN
  IF S = {} THEN [ok |-> FALSE, v |-> <<>>]
  ELSE LET p == props[LastOf(S)] IN
       IF Readable(p.t, t) /\ Len(p.v) = CountOf(c, k) THEN [ok |-> TRUE, v |-> p.v] ELSE [ok |-> FALSE, v |-> <<>>]
AllOK(qs) == \A j \in 1..Len(qs) : qs[j].ok
\* several properties read together, as one tuple per element
Tuples(qs) == IF Len(qs[1].v) = 0 THEN <<>> ELSE [j \in 1..Len(qs[1].v) |-> [c \in 1..Len(qs) |-> qs[c].v[j]]]
Axes == <<"x", "y", "z">>
Channels == <<"red", "green", "blue">>
Positions(props, c) == [j \in 1..3 |-> Query(props, c, "vertex", Axes[j], "double")]
Colors(props, c, t) == [j \in 1..3 |-> Query(props, c, "vertex", Channels[j], t)]
=============================================================================
