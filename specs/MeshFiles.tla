------------------------------ MODULE MeshFiles ------------------------------
(* What mesh files mean: a file is a sequence of statements; its meaning is a soup
   [pts, polys, uv] (vertices numbered from 0, a coordinate pair per corner or none). Numbers are opaque names. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* --- OBJ: statements <<"v", x, y, z>>, <<"vt", u, v>>, <<"f", <<position, texture, normal>>...>>;
\* an index is 1-based, negative ones count back from the latest entry at that line, 0 is absent
Abs(k, n) == IF k < 0 THEN n + k + 1 ELSE k
ObjStep(s, l) ==
  CASE l[1] = "v"  -> [s EXCEPT !.pts = Append(@, <<l[2], l[3], l[4]>>)]
    [] l[1] = "vt" -> [s EXCEPT !.vt = Append(@, <<l[2], l[3]>>)]
    [] l[1] = "f"  -> [s EXCEPT !.polys = Append(@, [k \in 1..Len(l[2]) |-> Abs(l[2][k][1], Len(s.pts)) - 1]),
                                !.tex = Append(@, [k \in 1..Len(l[2]) |-> Abs(l[2][k][2], Len(s.vt))])]
Obj(lines) ==
  LET s == FoldLeft(ObjStep, [pts |-> <<>>, vt |-> <<>>, polys |-> <<>>, tex |-> <<>>], lines)
      has == \E f \in 1..Len(s.tex) : \E k \in 1..Len(s.tex[f]) : s.tex[f][k] # 0
  IN [pts |-> s.pts, polys |-> s.polys,
      uv |-> IF has THEN [f \in 1..Len(s.tex) |-> [k \in 1..Len(s.tex[f]) |-> s.vt[s.tex[f][k]]]] ELSE <<>>]

\* --- OFF
Off(V, F) == [pts |-> V, polys |-> F, uv |-> <<>>]

\* --- STL: a triangle is <<normal, a, b, c>>; it faces to the side of its normal, if that is given
Sub(val, a, b) == [k \in 1..3 |-> val[a[k] + 1][1] - val[b[k] + 1][1]]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Facing(val, t) == LET n == Cross(Sub(val, t[3], t[2]), Sub(val, t[4], t[2]))
                  IN IF Dot(n, t[1]) < 0 THEN <<t[4], t[3], t[2]>> ELSE <<t[2], t[3], t[4]>>
Stl(val, T) == LET F == [f \in 1..Len(T) |-> Facing(val, T[f])] IN
  [pts |-> FlattenSeq(F), polys |-> [f \in 1..Len(F) |-> <<3 * f - 3, 3 * f - 2, 3 * f - 1>>], uv |-> <<>>]

\* --- loading as a surface: unused vertices go, identical corners of STL triangles meet
Rot(s, k) == [i \in 1..Len(s) |-> s[((i - 1 + k) % Len(s)) + 1]]
Cyclic(s, t) == Len(s) = Len(t) /\ \E k \in 0..Len(s) : Rot(s, k) = t
Used(m) == UNION {ToSet(m.polys[f]) : f \in 1..Len(m.polys)}
Rank0(m, v) == Cardinality({w \in Used(m) : w < v})
Stripped(m) == LET kept == SelectSeq([k \in 1..Len(m.pts) |-> k - 1], LAMBDA v : v \in Used(m)) IN
  [pts |-> [k \in 1..Len(kept) |-> m.pts[kept[k] + 1]],
   polys |-> [f \in 1..Len(m.polys) |-> [c \in 1..Len(m.polys[f]) |-> Rank0(m, m.polys[f][c])]],
   uv |-> m.uv]
\* a face as the cycle of its corners
Corners(m, f, uv) == [c \in 1..Len(m.polys[f]) |-> <<m.polys[f][c], IF uv /\ Len(m.uv) > 0 THEN m.uv[f][c] ELSE <<0, 0>>>>]
SameSurface(m, r, uv) ==
  /\ r.pts = m.pts
  /\ Len(r.polys) = Len(m.polys)
  /\ \A f \in 1..Len(m.polys) : Cyclic(Corners(m, f, uv), Corners(r, f, uv))
Places(m, f) == [c \in 1..Len(m.polys[f]) |-> m.pts[m.polys[f][c] + 1]]
SameTriangles(m, r) == \* separate triangles
  /\ Len(r.pts) = 3 * Len(m.polys) /\ Used(r) = 0..(Len(r.pts) - 1)
  /\ Len(r.polys) = Len(m.polys)
  /\ \A f \in 1..Len(m.polys) : Cyclic(Places(m, f), Places(r, f))
SameMerged(m, r) ==
  /\ Cardinality(ToSet(r.pts)) = Len(r.pts)
  /\ ToSet(r.pts) = ToSet(m.pts)
  /\ Len(r.polys) = Len(m.polys)
  /\ \A f \in 1..Len(m.polys) : Cyclic(Places(m, f), Places(r, f))
=============================================================================
