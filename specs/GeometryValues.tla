--------------------------- MODULE GeometryValues ---------------------------
(* What every geometric quantity and operator of a surface has to be, from the positions of its vertices (small integers).
   Lengths, areas and matrices are in thousandths, angles in ten-thousandths of a radian; all arithmetic is on integers.
   s is a recorded surface, g what Derive(s) works out of it, q the recorded values. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

GAbs(x) == IF x < 0 THEN -x ELSE x
GMax(a, b) == IF a > b THEN a ELSE b
Near(a, b, t) == GAbs(a - b) <= t
Chk(ok, name) == IF ok THEN {} ELSE {name}
Total(F(_), S) == MapThenSumSet(F, S)
Div(a, b) == IF a >= 0 THEN (a + b \div 2) \div b ELSE -((-a + b \div 2) \div b)      \* rounded, b > 0
PI == 31416
TWOPI == 62832

\* ---- arithmetic
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
Isqrt(n) == IF n <= 0 THEN 0 ELSE Newton(n, IF n < 10000 THEN 100 ELSE IF n < 1000000 THEN 1000 ELSE IF n < 100000000 THEN 10000 ELSE 46340)
SqrtK(n) == IF n <= 2000 THEN Isqrt(n * 1000000) ELSE IF n <= 200000 THEN 10 * Isqrt(n * 10000) ELSE 100 * Isqrt(n * 100)
AtanT == <<0, 15624, 31240, 46841, 62419, 77967, 93477, 108942, 124355, 139709, 154997, 170212, 185348, 200399, 215358, 230220, 244979, 259630, 274167, 288587, 302885, 317056, 331096, 345002, 358771, 372398, 385883, 399221, 412410, 425450, 438337, 451070, 463648, 476069, 488334, 500441, 512389, 524180, 535811, 547284, 558599, 569756, 580756, 591600, 602287, 612820, 623199, 633426, 643501, 653426, 663203, 672833, 682317, 691657, 700854, 709912, 718830, 727611, 736257, 744770, 753151, 761403, 769526, 777524, 785398>>
RECURSIVE AtanOf(_, _)
AtanOf(a, b) ==       \* 0 <= a <= b, b > 0
  IF b > 200000 THEN AtanOf(a \div 2, b \div 2)
  ELSE LET r == (a * 8192) \div b
           k == r \div 128 + 1
           t == AtanT[k]
           u == IF k = 65 THEN t ELSE AtanT[k + 1]
       IN (t + ((u - t) * (r % 128)) \div 128 + 50) \div 100
Atan2(y, x) ==
  LET a == GAbs(y)
      b == GAbs(x)
      q == IF a = 0 /\ b = 0 THEN 0 ELSE IF a <= b THEN AtanOf(a, b) ELSE 15708 - AtanOf(b, a)
      h == IF x >= 0 THEN q ELSE PI - q
  IN IF y >= 0 THEN h ELSE -h
SameAngle(a, b, t) == LET d == (a - b) % TWOPI IN d <= t \/ d >= TWOPI - t
Arg(z) == Atan2(z[2], z[1])

Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Mul(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
SumV(F(_), S) == LET a(x) == F(x)[1]
                     b(x) == F(x)[2]
                     c(x) == F(x)[3]
                 IN <<Total(a, S), Total(b, S), Total(c, S)>>
Near2(a, b, t) == Near(a[1], b[1], t) /\ Near(a[2], b[2], t)
Near3(a, b, t) == Near(a[1], b[1], t) /\ Near(a[2], b[2], t) /\ Near(a[3], b[3], t)

\* ---- the surface
Derive(s) ==
  LET H == ToSet(s.H)
      IH == {h \in H : s.fc[h] > 0}
      tip == [h \in H |-> s.tl[s.nx[h]]]
      vec == [h \in H |-> Sub(s.p[tip[h]], s.p[s.tl[h]])]
      of == [f \in ToSet(s.F) |-> {h \in IH : s.fc[h] = f}]
      N == [f \in ToSet(s.F) |-> LET c(h) == Cross(s.p[s.tl[h]], s.p[tip[h]]) IN SumV(c, of[f])]
      sides == [e \in ToSet(s.E) |-> {h \in IH : s.ed[h] = e}]
      bE == {e \in ToSet(s.E) : Cardinality(sides[e]) = 1}
  IN [H |-> H, IH |-> IH, V |-> ToSet(s.V), E |-> ToSet(s.E), F |-> ToSet(s.F), tip |-> tip, vec |-> vec, of |-> of, N |-> N, sides |-> sides, bE |-> bE,
      prev |-> [h \in IH |-> CHOOSE k \in IH : s.nx[k] = h],
      bV |-> {v \in ToSet(s.V) : \E h \in H : s.ed[h] \in bE /\ (s.tl[h] = v \/ tip[h] = v)},
      out |-> [v \in ToSet(s.V) |-> {h \in H : s.tl[h] = v}],
      cor |-> [v \in ToSet(s.V) |-> {h \in IH : s.tl[h] = v}],
      planar |-> {f \in ToSet(s.F) : \A h \in of[f] : Dot(N[f], vec[h]) = 0}]

\* the numbers are sane enough to compute with
In(x, b) == x <= b /\ x >= -b
All1(x, b) == \A i \in DOMAIN x : In(x[i], b)
All2(x, b) == \A i \in DOMAIN x : All1(x[i], b)
AllM(x, b) == \A i \in DOMAIN x : All2(x[i], b)
SmallOnes == {"el", "fa", "ifa", "iel", "da", "ida", "ifr"}
AngleOnes == {"ca", "ica", "sa", "as", "vK", "fK", "dh", "idh", "ivK", "hc", "ec", "ihc", "iec", "vH", "ivH"}
VecOnes == {"hf", "tf", "hv", "tv", "pv", "pf", "fn", "vn", "ifn", "mn", "imn", "ihv"}
MatOnes == {"L", "ML", "MG", "FG", "CR", "CM", "CL", "FC", "CC", "h0", "h1", "h2", "h2i", "d0", "d1", "sL", "sM", "sG", "pL", "pG", "pV", "pM", "pC", "pd0", "pd1", "ph0", "ph1", "ph2", "ph2i"}
Wild(q) == {k \in DOMAIN q : \/ (k \in SmallOnes /\ ~All1(q[k], 40000)) \/ (k \in AngleOnes /\ ~All1(q[k], 400000)) \/ (k \in VecOnes /\ ~All2(q[k], 30000))
                             \/ (k \in {"ft", "vt"} /\ ~AllM(q[k], 1010)) \/ (k \in MatOnes /\ ~AllM(q[k], 400000))}

\* ---- lengths, areas and angles
LenFails(s, g, l, nm) == Chk(\A e \in g.E : LET n == Dot(g.vec[s.eh[e]], g.vec[s.eh[e]]) IN l[e] >= 0 /\ Near(l[e] * l[e], n * 1000000, 2 * l[e] + 2), nm)
AreaFails(s, g, a, nm) == Chk(\A f \in g.F : Near(2 * a[f], SqrtK(Dot(g.N[f], g.N[f])), 3 + a[f] \div 1000), nm)
AngleAt(s, g, h) == LET a == g.vec[h]
                        b == Mul(-1, g.vec[g.prev[h]])
                        c == Cross(a, b)
                    IN Atan2(SqrtK(Dot(c, c)), 1000 * Dot(a, b))
AngleFails(s, g, a, nm) == Chk(\A h \in g.IH : Near(a[h], AngleAt(s, g, h), 4), nm)
Unit3(x, n) == \A i \in 1..3 : Near(x[i] * n, 0, 2000000000)
\* half the cotangent of the angle opposite h
HalfCotFails(s, g, c, nm) ==
  Chk((\A h \in g.IH :
         LET a == g.vec[g.prev[h]]
             b == g.vec[s.nx[h]]
             x == Cross(a, b)
             r == SqrtK(Dot(x, x)) \div 10
         IN Near(2 * c[h] * r, -Dot(a, b) * 100000, 2 * r + 2 * GAbs(c[h]) + 10)) /\ (\A h \in g.H \ g.IH : c[h] = 0), nm)
CotFails(s, g, q, w, nm) == Chk(\A e \in g.E : LET c(h) == q.hc[h] IN Near(w[e], Total(c, g.sides[e]), 2), nm)
DualFails(s, g, q, d, nm) == Chk(\A v \in g.V : LET c(h) == q.fa[s.fc[h]] IN Near(3 * d[v], Total(c, g.cor[v]), 3 + Cardinality(g.cor[v])), nm)
SumAngles(s, g, q, v) == LET c(h) == q.ca[h] IN Total(c, g.cor[v])
CurvFails(s, g, q, k, nm) == Chk(\A v \in g.V : Near(k[v], IF v \in g.bV THEN 0 ELSE TWOPI - SumAngles(s, g, q, v), 2 + Cardinality(g.cor[v])), nm)

Metric(s, g, q) ==
  LenFails(s, g, q.el, "edge lengths")
  \cup Chk("mls" \notin DOMAIN q \/ LET c(e) == q.el[e] IN Near(q.mls * Cardinality(g.E), Total(c, g.E), Cardinality(g.E) + 1), "mean edge length")
  \cup (IF "fa" \notin DOMAIN q THEN {} ELSE
        AreaFails(s, g, q.fa, "face areas")
        \cup Chk("sls" \notin DOMAIN q \/ LET c(f) == q.fa[f] IN Near(q.sls * q.sls, 1000 * Total(c, g.F), 2 * q.sls + 500 * Cardinality(g.F)), "length scale of the shape")
        \cup AngleFails(s, g, q.ca, "corner angles")
        \cup Chk(\A v \in g.V : Near(q.as[v], SumAngles(s, g, q, v), 1 + Cardinality(g.cor[v])), "angle sums"))
  \cup (IF s.tri = 0 THEN {} ELSE
        DualFails(s, g, q, q.da, "dual areas")
        \cup CurvFails(s, g, q, q.vK, "Gaussian curvature of vertices")
        \cup HalfCotFails(s, g, q.hc, "cotan weights of halfedges")
        \cup CotFails(s, g, q, q.ec, "cotan weights of edges")
        \cup Chk(\A h \in g.IH : LET v == s.tl[h]
                                     t == IF v \in g.bV THEN PI ELSE TWOPI
                                 IN q.ca[h] > 32000 \/ Near(q.sa[h], Div(q.ca[h] * t, q.as[v]), 4 + (3 * t) \div q.as[v]), "scaled corner angles")
        \cup Chk("fK" \notin DOMAIN q \/ \A f \in g.F : LET c(h) == q.sa[h] IN Near(q.fK[f], Total(c, g.of[f]) - PI, 4), "Gaussian curvature of faces"))
  \cup (IF "iel" \in DOMAIN q THEN LenFails(s, g, q.iel, "edge length, asked for one edge") ELSE {})
  \cup (IF "ifa" \in DOMAIN q THEN AreaFails(s, g, q.ifa, "face area, asked for one face") \cup AngleFails(s, g, q.ica, "corner angle, asked for one corner") ELSE {})
  \cup (IF "ihc" \in DOMAIN q THEN HalfCotFails(s, g, q.ihc, "cotan weight, asked for one halfedge") \cup CotFails(s, g, q, q.iec, "cotan weight, asked for one edge")
                                   \cup DualFails(s, g, q, q.ida, "dual area, asked for one vertex") ELSE {})
  \cup (IF "ivK" \in DOMAIN q THEN CurvFails(s, g, q, q.ivK, "curvature, asked for one vertex") ELSE {})
  \cup (IF "ifr" \in DOMAIN q THEN
          Chk(\A f \in g.F : LET h == s.fh[f]
                                 a == q.el[s.ed[h]]
                                 b == q.el[s.ed[s.nx[h]]]
                                 c == q.el[s.ed[g.prev[h]]]
                                 r == (((a * b) \div 1000) * c) \div 1000
                             IN Near((4 * q.fa[f] * (q.ifr[f] \div 10)) \div 100, r, 40 + r \div 200 + q.fa[f] \div 20), "circumradius")
        ELSE {})

\* ---- tangent vectors
Undef(q, k, S, nm) == Chk(ToSet(q[k]) = S, nm)
LongAs(z, l) == Near(z[1] * z[1] + z[2] * z[2], l * l, 4 * l + 8)
Directed(z, l) == LongAs(z, l)
\* turning by r takes the direction of vec(h) to the one opposite to vec(twin(h))
Carried(s, z, r, h) == LongAs(r[h], 1000) /\ SameAngle(Arg(r[h]), Arg(z[s.tw[h]]) + PI - Arg(z[h]), 24)

Tangent(s, g, q) ==
  IF s.tri = 0 THEN {} ELSE
  Undef(q, "hfu", g.H \ g.IH, "only halfedges inside have a vector in a face")
  \cup Chk(\A f \in g.F : LET h == s.fh[f]
                              k == s.nx[h]
                              a == q.hf[h]
                              b == q.hf[k]
                              c == q.hf[s.nx[k]]
                          IN Near(a[1], q.el[s.ed[h]], 1) /\ a[2] = 0 /\ Near(a[1] + b[1] + c[1], 0, 2) /\ Near(b[2] + c[2], 0, 2)
                             /\ LongAs(b, q.el[s.ed[k]]) /\ LongAs(c, q.el[s.ed[s.nx[k]]])
                             /\ Near((a[1] * b[2]) \div 1000, 2 * q.fa[f], 4 + (a[1] + b[2]) \div 500), "vectors of halfedges in faces")
  \cup (IF s.man = 0 THEN {} ELSE
        Undef(q, "tfu", {h \in g.H : s.ed[h] \in g.bE}, "only edges inside carry vectors between faces")
        \cup Chk(\A h \in g.H : s.ed[h] \in g.bE \/ Carried(s, q.hf, q.tf, h), "transport across halfedges")
        \cup Chk(q.hvu = <<>> /\ q.tvu = <<>>, "every halfedge has a vector at its vertex")
        \cup Chk(\A h \in g.H : LongAs(q.hv[h], q.el[s.ed[h]]), "lengths of halfedges at vertices")
        \cup Chk(\A v \in g.V : q.hv[s.vh[v]][2] = 0 /\ q.hv[s.vh[v]][1] > 0, "the first halfedge of a vertex points along its axis")
        \cup Chk(\A h \in g.IH : LET k == s.tw[g.prev[h]] IN SameAngle(Arg(q.hv[k]), Arg(q.hv[h]) + q.sa[h], 30), "angles between halfedges at vertices")
        \cup Chk(\A h \in g.H : Carried(s, q.hv, q.tv, h), "transport along halfedges"))

\* ---- matrices: rows of <<column, value>>, with a third part when complex
Part(M, i, j, p) == LET c(k) == IF M[i][k][1] = j THEN M[i][k][p] ELSE 0 IN Total(c, DOMAIN M[i])
At(M, i, j) == Part(M, i, j, 2)
Diag(M, n, D(_), t) == Len(M) = n /\ \A i \in 1..n : (\A k \in DOMAIN M[i] : M[i][k][1] = i) /\ Near(At(M, i, i), D(i), t)
Is(M, n, m, D(_, _), T(_, _)) == Len(M) = n /\ \A i \in 1..n : (\A k \in DOMAIN M[i] : M[i][k][1] \in 1..m) /\ \A j \in 1..m : Near(At(M, i, j), D(i, j), T(i, j))
IsC(M, n, D(_, _, _), T(_, _)) == Len(M) = n /\ \A i \in 1..n : \A j \in 1..n : Near(Part(M, i, j, 2), D(i, j, 1), T(i, j)) /\ Near(Part(M, i, j, 3), D(i, j, 2), T(i, j))
Inverted(M, n, D(_)) == Len(M) = n /\ \A i \in 1..n : GAbs(D(i)) < 60 \/ GAbs(D(i)) > 100000 \/ (In(At(M, i, i), 20000) /\ Near(At(M, i, i) * D(i), 1000000, GAbs(At(M, i, i)) + GAbs(D(i))))
Symmetric(M, n, t) == \A i \in 1..n : \A k \in DOMAIN M[i] : Near(M[i][k][2], At(M, M[i][k][1], i), t)
Balanced(M, n) == \A i \in 1..n : LET c(k) == M[i][k][2] IN Near(Total(c, DOMAIN M[i]), 0, 1 + Len(M[i]))
RowSum(M, i) == LET c(k) == M[i][k][2] IN Total(c, DOMAIN M[i])
MSum(M) == LET c(i) == RowSum(M, i) IN Total(c, DOMAIN M)
\* the x, y or z part of M applied to the positions
Applied(s, M, i) == LET c(k) == Mul(M[i][k][2], s.p[s.V[M[i][k][1]]]) IN SumV(c, DOMAIN M[i])

LapAt(s, g, w, i, j) ==
  LET v == s.V[i]
      u == s.V[j]
      ends == {e \in g.E : LET h == s.eh[e] IN {s.tl[h], g.tip[h]} = {v, u}}
      inc == {e \in g.E : LET h == s.eh[e] IN v \in {s.tl[h], g.tip[h]} /\ s.tl[h] # g.tip[h]}
      c(e) == w[e]
  IN IF i = j THEN Total(c, inc) ELSE -Total(c, ends)
MassAt(s, g, a, i, j) ==   \* twelve times the entry
  LET v == s.V[i]
      u == s.V[j]
      fs == {f \in g.F : LET c == {s.tl[h] : h \in g.of[f]} IN v \in c /\ u \in c}
      c(f) == a[f]
  IN IF i = j THEN 2 * Total(c, fs) ELSE Total(c, fs)

Operators(s, g, q) ==
  IF s.tri = 0 THEN {} ELSE
  LET nV == Len(s.V)
      nE == Len(s.E)
      nF == Len(s.F)
      Has(k) == k \in DOMAIN q
      ten(i, j) == 12
      lap(i, j) == LapAt(s, g, q.ec, i, j)
      dual(i) == q.da[s.V[i]]
      cot(i) == q.ec[s.E[i]]
      area(i) == q.fa[s.F[i]]
      \* the corner opposite h couples the other two edges
      crw(h) == 4 * q.hc[h]
      pairs(i, j) == {h \in g.IH : {s.ed[s.nx[h]], s.ed[g.prev[h]]} = {s.E[i], s.E[j]}}
      around(i) == {h \in g.IH : s.ed[s.nx[h]] = s.E[i] \/ s.ed[g.prev[h]] = s.E[i]}
      cr(i, j) == IF i = j THEN Total(crw, around(i)) ELSE -Total(crw, pairs(i, j))
      crt(i, j) == 14
      crm(i) == LET c(h) == q.fa[s.fc[h]] IN Div(Total(c, g.sides[s.E[i]]), 3)
      conn(i, j, p) ==
        LET hs == {h \in g.H : s.tl[h] = s.V[i] /\ g.tip[h] = s.V[j]}
            c(h) == -Div(q.ec[s.ed[h]] * q.tv[s.tw[h]][p], 1000)
            d(h) == q.ec[s.ed[h]]
        IN Total(c, hs) + (IF i = j /\ p = 1 THEN Total(d, g.out[s.V[i]]) ELSE 0)
      connT(i, j) == LET c(h) == 3 + GAbs(q.ec[s.ed[h]]) \div 1000 IN 3 + Total(c, g.out[s.V[i]])
      fconn(i, j, p) ==
        LET hs == {h \in g.of[s.F[i]] : s.tw[h] \in g.IH /\ s.fc[s.tw[h]] = s.F[j]}
            c(h) == -q.tf[s.tw[h]][p]
        IN Total(c, hs) + (IF i = j /\ p = 1 THEN 1000 * Cardinality({h \in g.of[s.F[i]] : s.tw[h] \in g.IH}) ELSE 0)
      fconnT(i, j) == 4
      \* the corner between the sides a and b after h: cosine and sine in thousandths
      crcos(h) == LET a == s.nx[h]
                      b == g.prev[h]
                  IN Div(-Dot(g.vec[a], g.vec[b]) * 1000000, (q.el[s.ed[a]] * q.el[s.ed[b]]) \div 1000)
      crsin(h) == LET a == s.nx[h]
                      b == g.prev[h]
                  IN Div(2 * q.fa[s.fc[h]] * 1000, (q.el[s.ed[a]] * q.el[s.ed[b]]) \div 1000)
      same(h) == IF s.ori[s.nx[h]] = s.ori[g.prev[h]] THEN 1 ELSE -1
      ccRe(h) == -Div(crw(h) * (-crcos(h)), 1000) * same(h)
      ccIm(h) == -Div(crw(h) * crsin(h), 1000) * same(h)
      ccI(h, i) == IF s.ed[s.nx[h]] = s.E[i] THEN ccIm(h) ELSE -ccIm(h)
      cc(i, j, p) == IF i = j THEN (IF p = 1 THEN Total(crw, around(i)) ELSE 0)
                     ELSE IF p = 1 THEN Total(ccRe, pairs(i, j)) ELSE LET c(h) == ccI(h, i) IN Total(c, pairs(i, j))
      ccT(i, j) == LET c(h) == GAbs(q.hc[h]) \div 40 IN 16 + Total(c, around(i))
      d0(i, j) == LET h == s.eh[s.E[i]] IN (IF g.tip[h] = s.V[j] THEN 1000 ELSE 0) - (IF s.tl[h] = s.V[j] THEN 1000 ELSE 0)
      d1(i, j) == LET c(h) == IF s.eh[s.E[j]] = h THEN 1000 ELSE -1000 IN Total(c, g.of[s.F[i]] \cap g.sides[s.E[j]])
      zero(i, j) == 0
      mg(i, j) == Div(MassAt(s, g, q.fa, i, j), 12)
      three(i, j) == 3
  IN Chk(~Has("L") \/ Is(q.L, nV, nV, lap, ten), "cotan Laplacian")
     \cup Chk(~Has("ML") \/ Diag(q.ML, nV, dual, 2), "lumped mass matrix")
     \cup Chk(~Has("MG") \/ Is(q.MG, nV, nV, mg, three), "Galerkin mass matrix")
     \cup Chk(~Has("FG") \/ Diag(q.FG, nF, area, 1), "mass matrix of faces")
     \cup Chk(~Has("CR") \/ Is(q.CR, nE, nE, cr, crt), "Crouzeix-Raviart Laplacian")
     \cup Chk(~Has("CM") \/ Diag(q.CM, nE, crm, 2), "Crouzeix-Raviart mass matrix")
     \cup Chk(~Has("CL") \/ IsC(q.CL, nV, conn, connT), "connection Laplacian of vertices")
     \cup Chk(~Has("FC") \/ IsC(q.FC, nF, fconn, fconnT), "connection Laplacian of faces")
     \cup Chk(~Has("CC") \/ IsC(q.CC, nE, cc, ccT), "Crouzeix-Raviart connection Laplacian")
     \cup (IF ~Has("d0") THEN {} ELSE
             Chk(Is(q.d0, nE, nV, d0, zero), "exterior derivative of functions") \cup Chk(Is(q.d1, nF, nE, d1, zero), "exterior derivative of 1-forms")
             \cup Chk(Diag(q.h0, nV, dual, 2) /\ Inverted(q.h0i, nV, dual), "Hodge star of functions")
             \cup Chk(Diag(q.h1, nE, cot, 2) /\ Inverted(q.h1i, nE, cot), "Hodge star of 1-forms")
             \cup Chk(Inverted(q.h2, nF, area) /\ Diag(q.h2i, nF, area, 2), "Hodge star of 2-forms"))

\* ---- in space
NormalFails(s, g, n, nm) == Chk(\A f \in g.F : LET r == SqrtK(Dot(g.N[f], g.N[f])) IN \A i \in 1..3 : Near(n[f][i] * r, g.N[f][i] * 1000000, r + 2000), nm)
\* x is v made a unit vector; v is known to within t
UnitOf(x, v, t) == LET l == Isqrt(Dot(v, v)) IN l < 20 * t \/ l > 25000 \/ \A i \in 1..3 : Near(x[i] * l, v[i] * 1000, 1500 * t + 2 * l)
DihedralIs(s, g, e, a) ==
  LET h == s.eh[e]
      n == g.N[s.fc[h]]
      m == g.N[s.fc[s.tw[h]]]
      l == SqrtK(Dot(g.vec[h], g.vec[h])) \div 10
      y == 100 * Dot(g.vec[h], Cross(n, m))
      x == Dot(n, m) * l
  IN IF e \in g.bE THEN a = 0
     ELSE \/ SameAngle(a, Atan2(y, x), 25)
          \/ GAbs(x) + GAbs(y) < (Isqrt(Dot(n, n)) * Isqrt(Dot(m, m)) * l) \div 20      \* an edge of a bent face, along its normal: nothing to go by
DihedralFails(s, g, a, nm) == Chk(\A e \in g.E : DihedralIs(s, g, e, a[e]), nm)
Bend(q, e) == Div(q.dh[e] * q.el[e], 10000)
MeanFails(s, g, q, k, nm) == Chk(\A v \in g.V : LET c(h) == Bend(q, s.ed[h]) IN Near(4 * k[v], Total(c, g.out[v]), 4 + 3 * Cardinality(g.out[v])), nm)
\* the lesser or the greater root k of k^2 - 2 H k + K, where H and K are spread over the dual area
RootsFails(s, g, q, a, b, nm) ==
  Chk(\A v \in g.V :
        LET A == q.da[v]
            h == q.vH[v]
            k == q.vK[v]
        IN a[v] <= b[v] /\ (\/ GAbs(a[v]) > 60000 \/ GAbs(b[v]) > 60000 \/ GAbs(h) > 40000 \/ A > 15000
                            \/ /\ Near(Div((a[v] + b[v]) * A, 1000), 2 * h, 4 + A \div 400 + GAbs(h) \div 300 + (GAbs(a[v]) + GAbs(b[v])) \div 500)
                               /\ LET d == Div((b[v] - a[v]) * A, 2000)
                                      x == GMax(0, h * h - Div(k, 10) * A)
                                      t == 4 + A \div 500 + (b[v] - a[v]) \div 500
                                  IN d > 40000 \/ Near(d * d, x, 2 * d * t + t * t + 6 * GAbs(h) + 2 * A + GAbs(k) \div 5)), nm)
BendDir(q, z, h, e) ==     \* - z^2 / length * angle, thousandths
  LET l == q.el[e]
      a == Div(z[1] * z[1] - z[2] * z[2], l)
      b == Div(2 * (z[1] * z[2]), l)
  IN <<-Div(a * q.dh[e], 10000), -Div(b * q.dh[e], 10000), 0>>
DualNormalFails(s, g, q, n, nm) ==
  Chk(\A v \in g.V : LET c(h) == IF s.tl[h] = v THEN Mul(-q.ec[s.ed[h]], g.vec[h]) ELSE Mul(q.ec[s.ed[h]], g.vec[h])
                         hs == {s.eh[e] : e \in {x \in g.E : v \in {s.tl[s.eh[x]], g.tip[s.eh[x]]} /\ s.tl[s.eh[x]] # g.tip[s.eh[x]]}}
                     IN Near3(Mul(2, n[v]), SumV(c, hs), 3 + 6 * Cardinality(hs)), nm)
Ortho(b, n) == Near(Dot(b[1], b[1]), 1000000, 4000) /\ Near(Dot(b[1], n), 0, 4000) /\ Near3(Mul(1000, b[2]), Cross(n, b[1]), 4000)
Flatten(e, n) == LET d == Dot(e, n) IN <<1000 * e[1] - Div(d * n[1], 1000), 1000 * e[2] - Div(d * n[2], 1000), 1000 * e[3] - Div(d * n[3], 1000)>>

Space(s, g, q) ==
  IF q.kind # "pos" THEN {} ELSE
  LET Has(k) == k \in DOMAIN q IN
  NormalFails(s, g, q.fn, "normals of faces")
  \cup Chk(\A v \in g.V : LET c(h) == <<Div(q.ca[h] * q.fn[s.fc[h]][1], 10000), Div(q.ca[h] * q.fn[s.fc[h]][2], 10000), Div(q.ca[h] * q.fn[s.fc[h]][3], 10000)>>
                          IN UnitOf(q.vn[v], SumV(c, g.cor[v]), 2 + 2 * Cardinality(g.cor[v])), "normals of vertices")
  \cup (IF ~Has("ihv") THEN {} ELSE Chk(\A h \in g.H : q.ihv[h] = Mul(1000, g.vec[h]), "vector of one halfedge") \cup NormalFails(s, g, q.ifn, "normal, asked for one face"))
  \cup (IF s.man = 0 THEN {} ELSE DihedralFails(s, g, q.dh, "dihedral angles") \cup MeanFails(s, g, q, q.vH, "mean curvature"))
  \cup (IF ~Has("idh") THEN {} ELSE DihedralFails(s, g, q.idh, "dihedral angle, asked for one edge") \cup MeanFails(s, g, q, q.ivH, "mean curvature, asked for one vertex")
                                   \cup RootsFails(s, g, q, q.ik1, q.ik2, "principal curvatures, asked for one vertex"))
  \cup Chk(~(Has("k1") /\ Has("k2")) \/ RootsFails(s, g, q, q.k1, q.k2, "") = {}, "principal curvatures")
  \cup Chk(~Has("pv") \/ \A v \in g.V : LET c(h) == BendDir(q, q.hv[h], h, s.ed[h])
                                            t == SumV(c, g.out[v])
                                        IN Near2(<<4 * q.pv[v][1], 4 * q.pv[v][2]>>, t, 6 + 12 * Cardinality(g.out[v])), "principal directions at vertices")
  \cup Chk(~Has("pf") \/ \A f \in g.F : LET c(h) == BendDir(q, q.hf[h], h, s.ed[h])
                                            t == SumV(c, g.of[f])
                                        IN Near2(<<4 * q.pf[f][1], 4 * q.pf[f][2]>>, t, 40), "principal directions in faces")
  \cup (IF ~Has("mn") THEN {} ELSE DualNormalFails(s, g, q, q.mn, "mean curvature normals"))
  \cup (IF ~Has("imn") THEN {} ELSE DualNormalFails(s, g, q, q.imn, "mean curvature normal, asked for one vertex"))
  \cup Chk(~Has("ft") \/ \A f \in g.F : Ortho(q.ft[f], q.fn[f]) /\ (s.man = 0 \/ UnitOf(q.ft[f][1], Flatten(g.vec[s.fh[f]], q.fn[f]), 5)), "bases of faces")
  \cup Chk(\A v \in g.V : Ortho(q.vt[v], q.vn[v]), "bases of vertices")
  \cup Chk(s.man = 0 \/ \A v \in g.V :
             IF s.tri = 0 THEN UnitOf(q.vt[v][1], Flatten(g.vec[s.vh[v]], q.vn[v]), 12)
             ELSE LET c(h) == LET e == Flatten(g.vec[h], q.vn[v])
                                  m == Cross(q.vn[v], g.vec[h])
                                  l == q.el[s.ed[h]]
                                  x == Div(1000 * q.hv[h][1], l)
                                  y == Div(1000 * q.hv[h][2], l)
                              IN <<Div(e[1] * x - m[1] * y, 1000), Div(e[2] * x - m[2] * y, 1000), Div(e[3] * x - m[3] * y, 1000)>>
                  IN UnitOf(q.vt[v][1], SumV(c, g.out[v]), 16 * Cardinality(g.out[v])), "axes of vertices")

\* ---- operators on polygons
FlatAround(s, g, v) == v \notin g.bV /\ \E f \in {s.fc[h] : h \in g.cor[v]} : \A h \in g.cor[v] :
                          s.fc[h] \in g.planar /\ Cross(g.N[f], g.N[s.fc[h]]) = <<0, 0, 0>> /\ Dot(g.N[f], g.N[s.fc[h]]) > 0
Area(g, q) == LET c(f) == q.fa[f] IN Total(c, g.F)
Energy(s, M) == LET c(i) == Dot(Applied(s, M, i), s.p[s.V[i]]) IN Total(c, DOMAIN M)
LaplaceFails(s, g, q, M, nm) ==
  LET nV == Len(s.V)
      lap(i, j) == LapAt(s, g, q.ec, i, j)
      ten(i, j) == 12
  IN Chk(Len(M) = nV /\ Symmetric(M, nV, 1), nm \o " is symmetric") \cup Chk(Balanced(M, nV), nm \o " vanishes on constants")
     \cup Chk(s.tri = 0 \/ Is(M, nV, nV, lap, ten), nm \o " on triangles")
     \cup Chk(\A i \in 1..nV : FlatAround(s, g, s.V[i]) => Near3(Applied(s, M, i), <<0, 0, 0>>, 4 * Len(M[i])), nm \o " vanishes on linear functions")

Polygons(s, g, q) ==
  IF q.kind # "pos" \/ s.man = 0 THEN {} ELSE
  LET Has(k) == k \in DOMAIN q
      nV == Len(s.V)
      nF == Len(s.F)
      nH == Len(s.H)
      mg(i, j) == Div(MassAt(s, g, q.fa, i, j), 12)
      three(i, j) == 3
      allFlat == g.planar = g.F
      big == 60 * (Len(s.V) + Len(s.E))
      lump(i) == RowSum(q.sG, i)
      shares(i) == LET c(h) == Div(q.fa[s.fc[h]] * 60, Cardinality(g.of[s.fc[h]])) IN Div(Total(c, g.cor[s.V[i]]), 60)
      area(i) == q.fa[s.F[i]]
      hrow(i) == s.H[i]
      pd0(i, j) == IF s.H[i] \notin g.IH THEN 0 ELSE (IF g.tip[s.H[i]] = s.V[j] THEN 1000 ELSE 0) - (IF s.tl[s.H[i]] = s.V[j] THEN 1000 ELSE 0)
      pd1(i, j) == IF s.H[j] \in g.of[s.F[i]] THEN 1000 ELSE 0
      zero(i, j) == 0
      pv(i, j) == Div(At(q.pG, j, i) * q.fa[s.F[(j - 1) \div 3 + 1]], 1000)
      pvT(i, j) == 3 + q.fa[s.F[(j - 1) \div 3 + 1]] \div 1000 + GAbs(At(q.pG, j, i)) \div 500
  IN LaplaceFails(s, g, q, q.sL, "simple polygon Laplacian") \cup LaplaceFails(s, g, q, q.pL, "polygon Laplacian")
     \cup Chk(IF allFlat THEN Near(Energy(s, q.pL), 2 * Area(g, q), big) ELSE Energy(s, q.pL) >= 2 * Area(g, q) - big, "energy of the polygon Laplacian")
     \cup Chk(~allFlat \/ Energy(s, q.sL) >= 2 * Area(g, q) - big, "energy of the simple polygon Laplacian")
     \cup Chk(Symmetric(q.sG, nV, 1), "simple polygon mass is symmetric")
     \cup Chk(~allFlat \/ MSum(q.sG) >= Area(g, q) - big \div 10, "simple polygon mass is the area")
     \cup Chk(s.tri = 0 \/ (Is(q.sG, nV, nV, mg, three) /\ Near(MSum(q.sG), Area(g, q), big)), "simple polygon mass on triangles")
     \cup Chk(~Has("sM") \/ Diag(q.sM, nV, lump, 1 + nV), "simple polygon lumped mass")
     \cup Chk(~Has("pM") \/ Diag(q.pM, nV, shares, 3), "polygon lumped mass")
     \* the gradient of x, y and z is the axis less its part along the normal
     \cup Chk(Len(q.pG) = 3 * nF /\ \A k \in 1..nF : \A i \in 1..3 :
                LET n == q.fn[s.F[k]]
                    a == Applied(s, q.pG, 3 * (k - 1) + i)
                    e == [m \in 1..3 |-> (IF m = i THEN 1000 ELSE 0) - Div(n[m] * n[i], 1000)]
                IN Near3(a, e, 14), "polygon gradient of linear functions")
     \cup Chk(\A k \in 1..nF : \A i \in 1..3 : \A m \in DOMAIN q.pG[3 * (k - 1) + i] : \E h \in g.of[s.F[k]] : s.V[q.pG[3 * (k - 1) + i][m][1]] = s.tl[h], "polygon gradient looks at its face")
     \cup Chk(\A i \in 1..(3 * nF) : Near(RowSum(q.pG, i), 0, 6), "polygon gradient of constants")
     \cup Chk(~Has("pV") \/ Is(q.pV, nV, 3 * nF, pv, pvT), "polygon divergence")
     \cup (IF ~Has("pC") THEN {} ELSE
             Chk(\A i \in 1..nV : \A j \in 1..nV : Near(Part(q.pC, i, j, 2), Part(q.pC, j, i, 2), 1) /\ Near(Part(q.pC, i, j, 3), -Part(q.pC, j, i, 3), 1), "polygon connection Laplacian is Hermitian")
             \cup Chk(\A i \in 1..nV : Part(q.pC, i, i, 2) >= 0, "polygon connection Laplacian is positive")
             \cup Chk(s.flat = 0 \/ \A a \in {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>} : \A i \in 1..nV :
                        LET u(k) == LET b == q.vt[s.V[q.pC[i][k][1]]] IN <<Dot(a, b[1]), Dot(a, b[2])>>
                            x(k) == Div(q.pC[i][k][2] * u(k)[1] - q.pC[i][k][3] * u(k)[2], 1000)
                            y(k) == Div(q.pC[i][k][2] * u(k)[2] + q.pC[i][k][3] * u(k)[1], 1000)
                        IN Near(Total(x, DOMAIN q.pC[i]), 0, 5 + 4 * Len(q.pC[i])) /\ Near(Total(y, DOMAIN q.pC[i]), 0, 5 + 4 * Len(q.pC[i])), "polygon connection Laplacian of a constant field in the plane"))
     \cup (IF ~Has("pd0") THEN {} ELSE
             Chk(Is(q.pd0, nH, nV, pd0, zero), "polygon derivative of functions") \cup Chk(Is(q.pd1, nF, nH, pd1, zero), "polygon derivative of 1-forms")
             \cup Chk(Diag(q.ph0, nV, shares, 3) /\ Inverted(q.ph0i, nV, shares), "polygon Hodge star of functions")
             \cup Chk(Inverted(q.ph2, nF, area) /\ Diag(q.ph2i, nF, area, 2), "polygon Hodge star of 2-forms")
             \cup Chk(Len(q.ph1) = nH /\ Symmetric(q.ph1, nH, 1) /\ \A i \in 1..nH : \A k \in DOMAIN q.ph1[i] : s.H[i] \in g.IH /\ s.fc[s.H[q.ph1[i][k][1]]] = s.fc[s.H[i]], "polygon product of 1-forms")
             \cup Chk(\A i \in 1..nV : \A j \in 1..nV :
                        LET rows(v) == {r \in 1..nH : s.H[r] \in g.IH /\ v \in {s.tl[s.H[r]], g.tip[s.H[r]]}}
                            sg(r, v) == IF g.tip[s.H[r]] = s.V[v] THEN 1 ELSE -1
                            c(r) == sg(r, i) * LET d(k) == IF q.ph1[r][k][1] \in rows(s.V[j]) THEN sg(q.ph1[r][k][1], j) * q.ph1[r][k][2] ELSE 0 IN Total(d, DOMAIN q.ph1[r])
                        IN Near(Total(c, rows(s.V[i])), At(q.pL, i, j), 6 + 3 * Cardinality(rows(s.V[i]))), "polygon Laplacian from its parts"))

IndexFails(s, q) == Chk(q.vi = [i \in 1..Len(s.V) |-> i - 1] /\ q.ei = [i \in 1..Len(s.E) |-> i - 1] /\ q.fi = [i \in 1..Len(s.F) |-> i - 1], "dense indices")

ValueFails(s, g, q) ==
  IF q.refused # <<>> THEN {"refused: " \o q.refused[1]}
  ELSE IF Wild(q) # {} THEN {"a finite value: " \o CHOOSE k \in Wild(q) : TRUE}
  ELSE IndexFails(s, q) \cup Metric(s, g, q) \cup Tangent(s, g, q) \cup Operators(s, g, q) \cup Space(s, g, q) \cup Polygons(s, g, q)
=============================================================================
