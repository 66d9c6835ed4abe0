----------------------------- MODULE RemeshTrace -----------------------------
(* Remeshing and simplification (C28), as sequences of edits of a triangle mesh. The state kept here is what the specification of the
   single edits (ManifoldEdits) and of the constraints makes of the recorded steps: the mesh m, positions pos, the constraints fl with the
   value df given to new elements, and for the call under way its record cur, steps counted in n, edges whose surroundings were last changed
   by their own flip (own), pairs of vertices that were joined at some time (adj), edges that were split (cut), vertices moved since the
   last other step (mv), rounds of moves (rounds), and for simplification the planes each vertex stands for (pl). Positions are in
   1/10000, lengths and angles in millionths. *)
EXTENDS ManifoldEdits, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad, st
vars == <<i, bad, st>>

Pi6 == 3141593
Chk(c, name) == IF c THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, d) == Abs(a - b) <= d
NearP(a, b, d) == \A c \in 1..3 : Near(a[c], b[c], d)
Kinds == {"rv", "se", "ce", "fe"}
FnOf(S, a) == [x \in S |-> a[x]]
ElemsOf(m, k) == IF k = "rv" THEN m.V ELSE m.E
Ends(m, e) == <<m.tl[m.eh[e]], m.tl[m.tw[m.eh[e]]]>>
Pair(m, e) == {Ends(m, e)[1], Ends(m, e)[2]}

\* constraints: a function of the elements, or the empty one when nothing is constrained
Free(s, k, x) == s.on[k] => s.fl[k][x] = 1
MayFlip(s, e) == Free(s, "fe", e)
MaySplit(s, e) == Free(s, "se", e)
MayCollapse(s, e) == Free(s, "ce", e) /\ Free(s, "rv", Ends(s.m, e)[1]) /\ Free(s, "rv", Ends(s.m, e)[2])
MayMove(s, v) == Free(s, "rv", v)

NoCall == [what |-> "none"]
Start(e) ==
  LET m == MeshOf(e.s)
      raw == [rv |-> e.rv, se |-> e.se, ce |-> e.ce, fe |-> e.fe]
      on == [k \in Kinds |-> raw[k] # <<>>] IN
  [m |-> m, pos |-> FnOf(m.V, e.s.pos), on |-> on,
   fl |-> [k \in Kinds |-> IF on[k] THEN FnOf(ElemsOf(m, k), raw[k]) ELSE <<>>],
   df |-> [rv |-> e.rvd, se |-> e.sed, ce |-> e.ced, fe |-> e.fed],
   cur |-> NoCall, n |-> 0, own |-> {}, adj |-> {}, cut |-> {}, mv |-> {}, rounds |-> 0, pl |-> <<>>, tot |-> 0]
Call(s, e) ==
  [s EXCEPT !.cur = e, !.n = 0, !.own = {}, !.adj = {Pair(s.m, x) : x \in s.m.E}, !.cut = {}, !.mv = {}, !.rounds = 0, !.tot = 0,
            !.pl = IF e.what = "simplify"
                   THEN [v \in s.m.V |-> LET H == {h \in s.m.H : s.m.tl[h] = v /\ Interior(s.m, h)}
                                         IN [f \in {s.m.fc[h] : h \in H} |-> 1]]
                   ELSE <<>>]

\* after an edit the edges and vertices that are new get the default; both pieces of a split edge what held for it
Flags(s, p, pieces, e) ==
  [k \in Kinds |->
     IF ~s.on[k] THEN <<>>
     ELSE [x \in ElemsOf(p, k) |->
             IF k # "rv" /\ x \in pieces
             THEN IF (CASE k = "se" -> MaySplit(s, e) [] k = "ce" -> MayCollapse(s, e) [] k = "fe" -> MayFlip(s, e)) THEN 1 ELSE 0
             ELSE IF x \in ElemsOf(s.m, k) THEN s.fl[k][x] ELSE s.df[k]]]

Order(S) == LET r == Rank(S) IN [k \in 1..Cardinality(S) |-> CHOOSE x \in S : r[x] = k]
Step(s, e) ==
  LET p == MeshOf(e.s)  pos == FnOf(p.V, e.s.pos) IN
  CASE e.op = "flip" ->
         LET h == p.eh[e.e]  around == {p.ed[x] : x \in {p.nx[h], p.nx[p.nx[h]], p.nx[p.tw[h]], p.nx[p.nx[p.tw[h]]]}} IN
         [s EXCEPT !.m = p, !.pos = pos, !.n = @ + 1, !.own = (@ \ around) \cup {e.e}, !.adj = @ \cup {Pair(p, e.e)}, !.mv = {}]
    [] e.op = "split" ->
         LET back == p.tw[Pv(p, p.tw[Pv(p, e.r)])] IN
         [s EXCEPT !.m = p, !.pos = pos, !.n = @ + 1, !.cut = @ \cup {e.e}, !.mv = {},
                   !.fl = Flags(s, p, {p.ed[e.r], p.ed[back]}, e.e)]
    [] e.op = "collapse" ->
         LET a == Ends(s.m, e.e)
             q == IF s.cur.what = "simplify"
                  THEN LET f == s.pl[a[1]]  g == s.pl[a[2]]
                           both == [x \in DOMAIN f \cup DOMAIN g |-> (IF x \in DOMAIN f THEN f[x] ELSE 0) + (IF x \in DOMAIN g THEN g[x] ELSE 0)]
                       IN [v \in p.V |-> IF v = e.r THEN both ELSE s.pl[v]]
                  ELSE <<>> IN
         [s EXCEPT !.m = p, !.pos = pos, !.n = @ + 1, !.mv = {}, !.pl = q, !.fl = Flags(s, p, {}, e.e)]
    [] e.op = "compress" ->
         LET o(k) == Order(ElemsOf(s.m, k)) IN
         [s EXCEPT !.m = p, !.pos = pos, !.own = {}, !.cut = {}, !.pl = <<>>,
                   !.fl = [k \in Kinds |-> IF s.on[k] THEN [x \in ElemsOf(p, k) |-> s.fl[k][o(k)[x]]] ELSE <<>>]]
    [] e.op = "move" ->
         [s EXCEPT !.pos[e.v] = [c \in 1..3 |-> e.from[c] + e.off[c]], !.mv = IF e.v \in @ THEN {e.v} ELSE @ \cup {e.v},
                   !.rounds = IF s.mv = {} \/ e.v \in s.mv THEN @ + 1 ELSE @, !.tot = @ + e.n]
    [] OTHER -> s

-----------------------------------------------------------------------------
MeshOp(e) == [op |-> e.op, a |-> IF e.op = "flip" THEN <<e.e, 1>> ELSE IF e.op = "compress" THEN <<>> ELSE <<e.e>>, r |-> IF e.op = "compress" THEN <<>> ELSE <<e.r>>, x |-> ""]
Others(s, p, pos, S) == \A v \in (p.V \cap s.m.V) \ S : NearP(pos[v], s.pos[v], 2)
Mid(s, e) == [c \in 1..3 |-> (s.pos[Ends(s.m, e)[1]][c] + s.pos[Ends(s.m, e)[2]][c]) \div 2]
Finite(pos) == \A v \in DOMAIN pos : \A c \in 1..3 : Abs(pos[v][c]) < 900000000

\* which steps each routine may make
Allowed(what) == CASE what = "remesh" -> {"flip", "split", "collapse", "move", "compress"}
                   [] what = "adjust" -> {"split", "collapse", "compress"}
                   [] what = "delaunay" -> {"flip"}
                   [] what \in {"lap", "cir"} -> {"move"}
                   [] what = "simplify" -> {"collapse", "compress"}
                   [] OTHER -> {}

\* simplification: distance of a point to a plane, in 1/10000
Dist(c, f, x) == LET n == c.pl[f] IN (n[1] * x[1]) \div 10000 + (n[2] * x[2]) \div 10000 + (n[3] * x[3]) \div 10000 + n[4]
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
SimplifyFails(s, e, x) ==
  LET q == Step(s, e).pl[e.r]  D == DOMAIN q  d == [f \in D |-> Dist(s.cur, f, x)]
      cost == Sum([f \in D |-> (q[f] * d[f] * d[f]) \div 100], D)
      grad(c) == Sum([f \in D |-> (q[f] * d[f] * s.cur.pl[f][c]) \div 10000], D)
      slack == 6 * Sum(q, D) IN
  IF \E c \in 1..3 : Abs(x[c]) > 60000 THEN {}
  ELSE IF \E f \in D : Abs(d[f]) > 20000 THEN {"a collapse costs at most the tolerance"}
  ELSE Chk(cost <= s.cur.tol + 40 * slack, "a collapse costs at most the tolerance")
       \cup Chk(\A c \in 1..3 : Abs(grad(c)) <= slack, "a collapse places the vertex where the error is least")

StepFails(s, e) ==
  IF e.op \notin Allowed(s.cur.what) THEN {"a step the routine does not make: " \o e.op \o " in " \o s.cur.what}
  ELSE IF e.op = "move" THEN
    Chk(e.v \in s.m.V /\ MayMove(s, e.v), "fixed vertices stay")
    \cup Chk(NearP(e.from, s.pos[e.v], 3), "positions change by the steps only")
    \cup Chk((s.cur.bc = 0 /\ BdryVertex(s.m, e.v)) => e.off = <<0, 0, 0>>, "fixed boundaries stay")
    \cup Chk(s.cur.what \in {"lap", "cir"} => e.v \notin s.mv, "each vertex is moved once")
  ELSE
    LET p == MeshOf(e.s)  pos == FnOf(p.V, e.s.pos)  c == s.cur IN
    IF ~(IterationOK(e.s) /\ WF(p)) THEN {"every pointer names a live element"}
    ELSE IF e.op # "compress" /\ e.e \notin s.m.E THEN {"edits are of the mesh's edges"}
    ELSE LET ef == EffectFails(s.m, p, MeshOp(e)) IN
    IF ef # {} THEN ef
    ELSE CASE e.op = "compress" ->
                Chk(\A k \in 1..Cardinality(p.V) : NearP(pos[k], s.pos[Order(s.m.V)[k]], 2), "positions follow their vertices in compression")
           [] e.op = "flip" ->
                Chk(MayFlip(s, e.e), "protected edges are not flipped")
                \cup Chk(FlipPossible(s.m, e.e, TRUE), "only edges that can be flipped are")
                \cup Chk(e.an > Pi6 - 20, "only edges that are not Delaunay are flipped")
                \cup Chk(Others(s, p, pos, {}), "flips move nothing")
           [] e.op = "split" ->
                Chk(MaySplit(s, e.e), "protected edges are not split")
                \cup Chk(e.len > c.min - 2 /\ (c.curv = 1 \/ e.len > c.fd - 4), "only long edges are split")
                \cup Chk(NearP(pos[p.tl[e.r]], Mid(s, e.e), 3) /\ Near(e.t, 500000, 2), "edges are split in the middle")
                \cup Chk(Others(s, p, pos, {}), "splits move nothing else")
           [] e.op = "collapse" ->
                Chk(MayCollapse(s, e.e), "protected edges are not collapsed and fixed vertices stay")
                \cup Chk(Others(s, p, pos, {e.r}), "collapses move nothing else")
                \cup (IF c.what = "simplify" THEN SimplifyFails(s, e, pos[e.r])
                      ELSE Chk(e.len < c.half + 4, "only short edges are collapsed")
                           \cup Chk(NearP(pos[e.r], Mid(s, e.e), 3), "edges are collapsed to their middle")
                           \cup Chk(e.fold >= 1999990, "no collapse folds the surface over"))
           [] OTHER -> {}

-----------------------------------------------------------------------------
(* Smoothing *)
Dot(a, b) == (a[1] * b[1]) \div 10000 + (a[2] * b[2]) \div 10000 + (a[3] * b[3]) \div 10000
Minus3(a, b) == [c \in 1..3 |-> a[c] - b[c]]
OffPlane(u, n) == LET k == Dot(u, n) IN [c \in 1..3 |-> u[c] - (k * n[c]) \div 10000]
OnLine(u, t) == LET k == Dot(u, t) IN [c \in 1..3 |-> (k * t[c]) \div 10000]
Spokes(m, v) == {h \in m.H : m.tl[h] = v}
Average(s, v) == LET H == Spokes(s.m, v) IN [c \in 1..3 |-> Sum([h \in H |-> s.pos[Tip(s.m, h)][c]], H) \div Cardinality(H)]
Free3(s, c, f) == \A h \in HeOf(s.m, f) : ~BdryEdge(s.m, s.m.ed[h]) /\ MayFlip(s, s.m.ed[h])
Center(s, c, f) == IF Free3(s, c, f) THEN c.ci[f]
                   ELSE LET H == HeOf(s.m, f) IN [k \in 1..3 |-> Sum([h \in H |-> s.pos[s.m.tl[h]][k]], H) \div 3]
Far(s, c, v) == \E h \in Spokes(s.m, v) : Interior(s.m, h) /\ \E k \in 1..3 : Abs(Center(s, c, s.m.fc[h])[k]) > 90000
Pull(s, c, v) ==
  LET H == {h \in Spokes(s.m, v) : Interior(s.m, h)}  tot == Sum([h \in H |-> c.ar[s.m.fc[h]]], H)
      w == [h \in H |-> (c.ar[s.m.fc[h]] * 10000) \div tot] IN
  [k \in 1..3 |-> Sum([h \in H |-> w[h] * (Center(s, c, s.m.fc[h])[k] - s.pos[v][k])], H) \div 20000]
Target(s, c, v) == IF c.what = "lap" THEN Minus3(Average(s, v), s.pos[v]) ELSE Pull(s, c, v)
Offset(s, c, v) ==
  LET u == Target(s, c, v)
      d == IF ~BdryVertex(s.m, v) THEN OffPlane(u, c.nr[v])
           ELSE CASE c.bc = 0 -> <<0, 0, 0>> [] c.bc = 1 -> OnLine(u, c.tg[v]) [] OTHER -> OffPlane(u, c.nr[v]) IN
  [k \in 1..3 |-> (d[k] * c.size) \div 10000]

\* a move of a smoothing call, checked in the state s at the call
SmoothFails(s0, c, e) ==
  IF c.what = "cir" /\ Far(s0, c, e.v) THEN {}
  ELSE Chk(NearP(e.off, Offset(s0, c, e.v), 25), "smoothing moves a vertex towards the average of its surroundings, along the surface")

-----------------------------------------------------------------------------
EdgeOpp(m, e) == {m.tl[m.nx[m.nx[m.eh[e]]]], m.tl[m.nx[m.nx[m.tw[m.eh[e]]]]]}
RetFails(s, e) ==
  LET p == MeshOf(e.s)  pos == FnOf(p.V, e.s.pos)  c == s.cur IN
  IF e.x # "" THEN {"no failure in " \o e.what \o ": " \o e.x}
  ELSE IF ~(IterationOK(e.s) /\ WF(p)) THEN {"every pointer names a live element"}
  ELSE IF Invalid(p) # {} THEN {"the mesh is valid"}
  ELSE
  Chk(SameMesh(s.m, p), "the mesh changes by the steps only")
  \cup Chk(Finite(pos), "coordinates stay finite")
  \cup Chk(p.V = s.m.V => \A v \in p.V : NearP(pos[v], s.pos[v], 3), "positions change by the steps only")
  \cup Chk(e.what \in {"remesh", "adjust", "simplify"} /\ (e.what = "remesh" => c.its > 0) => Compressed(p), "the mesh comes back compressed")
  \cup CASE e.what = "delaunay" ->
              Chk(e.r = s.n, "the number of flips is reported")
              \cup Chk(s.n < 100 * Cardinality(p.V) =>
                        \A x \in p.E : BdryEdge(p, x) \/ e.an[x] <= Pi6 + 20 \/ ~MayFlip(s, x) \/ x \in s.own
                                        \/ ~FlipPossible(p, x, FALSE) \/ EdgeOpp(p, x) \in s.adj \/ Cardinality(EdgeOpp(p, x)) = 1,
                       "edges that are not Delaunay are flipped")
         [] e.what = "adjust" ->
              Chk((e.r = 1) = (s.n > 0), "changes are reported")
              \cup Chk(s.n = 0 => \A x \in s.m.E : ~MaySplit(s, x) \/ c.curv = 1 \/ c.le[x] <= c.fd + 4 \/ c.le[x] <= c.min + 4, "long edges are split")
              \cup Chk(s.n = 0 => \A x \in s.m.E : ~MayCollapse(s, x) \/ c.curv = 1 \/ c.le[x] >= c.half - 4 \/ c.fo[x][2] = 1 \/ c.fo[x][1] <= 2000010
                                    \/ ~CollapsePossible(s.m, x) \/ ~CollapseDomain(s.m, x), "short edges are collapsed")
         [] e.what \in {"lap", "cir"} ->
              Chk(s.mv = {v \in p.V : MayMove(s, v)}, "all free vertices are moved")
              \cup Chk(Near(e.r, s.tot \div Cardinality(p.V), 20), "the average movement is reported")
         [] e.what = "remesh" ->
              Chk(s.rounds <= c.its, "no more rounds than allowed")
              \cup Chk((c.its > 0 /\ \E v \in p.V : MayMove(s, v)) => s.rounds > 0, "vertices are smoothed")
              \cup Chk(\A x \in p.E : Near(e.cl[x], e.le[x], 2), "cached quantities are fresh")
         [] OTHER -> {}

\* every long edge is split at the first compression of an adjustment
CutFails(s) ==
  IF s.cur.what # "adjust" \/ s.cur.curv = 1 THEN {}
  ELSE LET c == s.cur IN
       Chk(\A x \in 1..Len(c.le) : c.le[x] <= c.fd + 4 \/ c.le[x] <= c.min + 4 \/ x \in s.cut \/ (x \in s.m.E /\ ~MaySplit(s, x)), "long edges are split")

Fails(n, s) ==
  LET e == Trace[n] IN
  CASE e.op = "crash" -> {"no crash or hang (" \o e.why \o ")"}
    [] e.op \in {"init", "call"} -> {}
    [] e.op = "ret" -> RetFails(s, e)
    [] e.op = "move" -> LET f == StepFails(s, e) IN
                        IF f # {} \/ s.cur.what \notin {"lap", "cir"} THEN f ELSE SmoothFails([s EXCEPT !.pos = s.cur.pos0], s.cur, e)
    [] e.op = "compress" -> StepFails(s, e) \cup CutFails(s)
    [] OTHER -> StepFails(s, e)

Init == i = 0 /\ bad = FALSE /\ st = <<>>
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1] IN
     IF e.op = "init" THEN bad' = FALSE /\ st' = Start(e)
     ELSE IF bad THEN bad' = TRUE /\ st' = st
     ELSE LET f == Fails(i + 1, st) IN
          IF f # {} THEN PrintT(<<"FAIL", i + 1, f>>) /\ bad' = TRUE /\ st' = st
          ELSE bad' = FALSE /\ st' = IF e.op = "call" THEN Call([st EXCEPT !.cur = NoCall], e @@ [pos0 |-> st.pos]) ELSE Step(st, e)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
