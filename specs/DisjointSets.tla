---------------------------- MODULE DisjointSets ----------------------------
(* Disjoint sets with marks. Abstract state: cls, the class (the set of members) of every element, and mk, the set of
   marked elements (always a union of classes). Concrete state, refining it: a forest (parent, rank, mark at roots).

   The model explores both side by side: Refines says the forest represents the abstract state, and is checked
   exhaustively by TLC. DisjointSetsTrace uses the abstract operators on recorded histories of the real code.         *)
EXTENDS Naturals, FiniteSets, TLC

\* ---- abstract operators
Fresh(n) == [cls |-> [x \in 1..n |-> {x}], mk |-> {}]
AMerge(s, x, y) ==
  LET c == s.cls[x] \cup s.cls[y] IN
  [cls |-> [z \in DOMAIN s.cls |-> IF z \in c THEN c ELSE s.cls[z]],
   mk |-> IF x \in s.mk \/ y \in s.mk THEN s.mk \cup c ELSE s.mk]
AMark(s, x) == [s EXCEPT !.mk = @ \cup s.cls[x]]
AUnmark(s, x) == [s EXCEPT !.mk = @ \ s.cls[x]]

\* ---- the forest
CONSTANT N
VARIABLES abs, parent, rank, root
vars == <<abs, parent, rank, root>>

RECURSIVE FindR(_, _)
FindR(p, x) == IF p[x] = x THEN x ELSE FindR(p, p[x])
\* path compression: everything on the way points at the root afterwards
RECURSIVE Path(_, _)
Path(p, x) == IF p[x] = x THEN {x} ELSE {x} \cup Path(p, p[x])
Compress(p, x) == LET r == FindR(p, x) IN [z \in 1..N |-> IF z \in Path(p, x) THEN r ELSE p[z]]

Init == abs = Fresh(N) /\ parent = [x \in 1..N |-> x] /\ rank = [x \in 1..N |-> 0] /\ root = {}

Find(x) == parent' = Compress(parent, x) /\ UNCHANGED <<abs, rank, root>>
Merge(x, y) ==
  LET p == Compress(Compress(parent, x), y)
      a == FindR(p, x)  b == FindR(p, y) IN
  /\ abs' = AMerge(abs, x, y)
  /\ parent' = IF rank[a] > rank[b] THEN [p EXCEPT ![b] = a] ELSE [p EXCEPT ![a] = b]
  /\ rank' = IF rank[a] = rank[b] THEN [rank EXCEPT ![b] = @ + 1] ELSE rank
  /\ root' = IF a \in root \/ b \in root THEN root \cup {a, b} ELSE root
Mark(x) == abs' = AMark(abs, x) /\ parent' = Compress(parent, x) /\ root' = root \cup {FindR(parent, x)} /\ UNCHANGED rank
Unmark(x) == abs' = AUnmark(abs, x) /\ parent' = Compress(parent, x) /\ root' = root \ {FindR(parent, x)} /\ UNCHANGED rank

Next == \E x \in 1..N : Find(x) \/ Mark(x) \/ Unmark(x) \/ \E y \in 1..N : Merge(x, y)
Spec == Init /\ [][Next]_vars

Refines ==
  /\ \A x, y \in 1..N : (FindR(parent, x) = FindR(parent, y)) = (y \in abs.cls[x])
  /\ \A x \in 1..N : FindR(parent, x) \in abs.cls[x]
  /\ \A x \in 1..N : (FindR(parent, x) \in root) = (x \in abs.mk)
MarksAreUnions == \A x \in abs.mk : abs.cls[x] \subseteq abs.mk
\* ranks are not bounded by the code when an element is merged with its own class; bound the exploration
RankBound == \A x \in 1..N : rank[x] <= 3
=============================================================================
