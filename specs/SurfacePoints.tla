--------------------------- MODULE SurfacePoints ---------------------------
(* Points and displacement vectors on a triangle mesh. A mesh is a record with
     fv[f], fe[f], fo[f]   the corners (vertices), sides (edges) of face f in order, and whether the side runs along the
                           edge's own direction
     et[e]                 the edge's two ends <<tail, tip>>,  l2[e] its squared length,  nv the number of vertices
   Coordinates are integers in units of 1/D.
   A point is <<0, v>>, <<1, e, t>> (t from the tail) or <<2, f, a, b, c>>; a vector <<0, v>>, <<1, e, x, y>> or
   <<2, f, a, b, c>>. The meaning of either is its coordinates in any cell (edge or face) that contains its element.  *)
EXTENDS Integers, Sequences, FiniteSets

D == 12
Faces(m) == 1..Len(m.fv)
Edges(m) == 1..Len(m.et)
Nx(k) == (k % 3) + 1
Tri(k, x, y) == [c \in 1..3 |-> IF c = k THEN x ELSE IF c = Nx(k) THEN y ELSE 0]

(* coordinates of a point, resp. vector, in face f / along edge e: the set of possible answers, empty if not on it *)
PF(m, p, f) ==
  CASE p[1] = 0 -> {Tri(k, D, 0) : k \in {c \in 1..3 : m.fv[f][c] = p[2]}}
    [] p[1] = 1 -> {IF m.fo[f][k] = 1 THEN Tri(k, D - p[3], p[3]) ELSE Tri(k, p[3], D - p[3])
                    : k \in {c \in 1..3 : m.fe[f][c] = p[2]}}
    [] OTHER -> IF p[2] = f THEN {<<p[3], p[4], p[5]>>} ELSE {}
PE(m, p, e) ==
  CASE p[1] = 0 -> (IF m.et[e][1] = p[2] THEN {0} ELSE {}) \cup (IF m.et[e][2] = p[2] THEN {D} ELSE {})
    [] p[1] = 1 -> IF p[2] = e THEN {p[3]} ELSE {}
    [] OTHER -> {}
VF(m, v, f) ==
  CASE v[1] = 0 -> IF \E c \in 1..3 : m.fv[f][c] = v[2] THEN {<<0, 0, 0>>} ELSE {}
    [] v[1] = 1 -> {IF m.fo[f][k] = 1 THEN Tri(k, v[3], v[4]) ELSE Tri(k, v[4], v[3])
                    : k \in {c \in 1..3 : m.fe[f][c] = v[2]}}
    [] OTHER -> IF v[2] = f THEN {<<v[3], v[4], v[5]>>} ELSE {}
VE(m, v, e) ==
  CASE v[1] = 0 -> IF v[2] \in {m.et[e][1], m.et[e][2]} THEN {<<0, 0>>} ELSE {}
    [] v[1] = 1 -> IF v[2] = e THEN {<<v[3], v[4]>>} ELSE {}
    [] OTHER -> {}
PFaces(m, p) == {f \in Faces(m) : PF(m, p, f) # {}}
PEdges(m, p) == {e \in Edges(m) : PE(m, p, e) # {}}
VFaces(m, v) == {f \in Faces(m) : VF(m, v, f) # {}}
VEdges(m, v) == {e \in Edges(m) : VE(m, v, e) # {}}

FacePt(f, c) == <<2, f, c[1], c[2], c[3]>>
(* p re-expressed: each function gives the set of correct answers; <<>> is a refusal *)
InFace(m, p, f) == IF PF(m, p, f) = {} THEN {<<>>} ELSE {FacePt(f, c) : c \in PF(m, p, f)}
InEdge(m, p, e) == IF PE(m, p, e) = {} THEN {<<>>} ELSE {<<1, e, t>> : t \in PE(m, p, e)}
VInFace(m, v, f) == IF VF(m, v, f) = {} THEN {<<>>} ELSE {FacePt(f, c) : c \in VF(m, v, f)}
VInEdge(m, v, e) == IF VE(m, v, e) = {} THEN {<<>>} ELSE {<<1, e, c[1], c[2]>> : c \in VE(m, v, e)}

Weights(m, p) == \* vertex -> weight, as a set of pairs
  CASE p[1] = 0 -> {<<p[2], D>>}
    [] p[1] = 1 -> {<<m.et[p[2]][1], D - p[3]>>, <<m.et[p[2]][2], p[3]>>}
    [] OTHER -> {<<m.fv[p[2]][k], p[2 + k]>> : k \in 1..3}
Nearest(m, p) == {w[1] : w \in {x \in Weights(m, p) : \A y \in Weights(m, p) : y[2] <= x[2]}}
RECURSIVE SumSet(_, _)
SumSet(S, data) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[2] * data[x[1]] + SumSet(S \ {x}, data)
Interp(m, p) == SumSet(Weights(m, p), m.data)

Sub3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Add3(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub2(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Add2(a, b) == <<a[1] + b[1], a[2] + b[2]>>
SharedF(m, p, q) == PFaces(m, p) \cap PFaces(m, q)
SharedE(m, p, q) == PEdges(m, p) \cap PEdges(m, q)

(* the displacement from p to q *)
Displacement(m, p, q) ==
  LET d == {FacePt(f, Sub3(b, a)) : <<f, a, b>> \in
              UNION {{<<f, a, b>> : a \in PF(m, p, f), b \in PF(m, q, f)} : f \in SharedF(m, p, q)}}
      e == {<<1, x, a - b, b - a>> : <<x, a, b>> \in
              UNION {{<<x, a, b>> : a \in PE(m, p, x), b \in PE(m, q, x)} : x \in SharedE(m, p, q)}}
      v == IF p[1] = 0 /\ p = q THEN {p} ELSE {} IN
  IF d \cup e \cup v = {} THEN {<<>>} ELSE d \cup e \cup v

Coords(v) == IF v[1] = 0 THEN <<0, 0, 0>> ELSE IF v[1] = 1 THEN <<v[3], v[4], 0>> ELSE <<v[3], v[4], v[5]>>
Scale(v, k) == IF v[1] = 0 THEN v ELSE [i \in 1..Len(v) |-> IF i <= 2 THEN v[i] ELSE k * v[i]]
(* u + s*w, s being 1 or -1, in any cell that contains both *)
Combine(m, u, w, s) ==
  LET d == {FacePt(f, Add3(a, <<s * b[1], s * b[2], s * b[3]>>)) : <<f, a, b>> \in
              UNION {{<<f, a, b>> : a \in VF(m, u, f), b \in VF(m, w, f)} : f \in VFaces(m, u) \cap VFaces(m, w)}}
      e == {<<1, x, a[1] + s * b[1], a[2] + s * b[2]>> : <<x, a, b>> \in
              UNION {{<<x, a, b>> : a \in VE(m, u, x), b \in VE(m, w, x)} : x \in VEdges(m, u) \cap VEdges(m, w)}}
      v == IF u[1] = 0 /\ u = w THEN {u} ELSE {} IN
  IF d \cup e \cup v = {} THEN {<<>>} ELSE d \cup e \cup v
(* twice the inner product, from the squared side lengths of the face *)
Dot2(m, f, a, b) ==
  -( (a[1]*b[2] + a[2]*b[1]) * m.l2[m.fe[f][1]] + (a[2]*b[3] + a[3]*b[2]) * m.l2[m.fe[f][2]]
     + (a[3]*b[1] + a[1]*b[3]) * m.l2[m.fe[f][3]])
Dots(m, u, w) == UNION {{Dot2(m, f, a, b) : a \in VF(m, u, f), b \in VF(m, w, f)} : f \in VFaces(m, u) \cap VFaces(m, w)}
Norm2(m, u) == CHOOSE x \in Dots(m, u, u) : TRUE \* (twice the square)
=============================================================================
