---------------------------- MODULE ManagerTrace ----------------------------
(* MutationManager: edits of a triangle mesh that respect constraints, move positions along, and run the registered
   handlers. State: the mesh and its attachments as recorded in e.s
     pos                  vertex positions (in 1/4096), when the manager has a geometry (geo)
     rv, se, ce, fe, sf   constraint flags of vertices (repositionable), edges (splittable, collapsible, flippable) and
                          faces (splittable); <<>> when there is no such constraint
     mr, ms, mc, mf, mt   the answers of mayRepositionVertex, maySplitEdge, mayCollapseEdge, mayFlipEdge, maySplitFace
   and, kept here, the default given to new elements of each constraint and the list of handlers.
   Prop: C12 constraints, connectivity and positions; C13 handler calls.                                             *)
EXTENDS ManifoldEdits, Json, IOUtils

CONSTANT Prop
ASSUME Prop \in {"C12", "C13"}

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, bad, hs, df
vars == <<i, bad, hs, df>>

Names == {"rv", "se", "ce", "fe", "sf"}
Get(s, n) == CASE n = "rv" -> s.rv [] n = "se" -> s.se [] n = "ce" -> s.ce [] n = "fe" -> s.fe [] n = "sf" -> s.sf
ElemsOf(m, n) == CASE n = "rv" -> m.V [] n = "sf" -> m.F [] OTHER -> m.E
On(s, n) == Get(s, n) # <<>>
Free(s, n, x) == On(s, n) => Get(s, n)[x] = 1

\* what the constraints say about element x
May(s, m, k, x) ==
  CASE k = "repos" -> Free(s, "rv", x)
    [] k = "split" -> Free(s, "se", x)
    [] k = "flip" -> Free(s, "fe", x)
    [] k = "fsplit" -> Free(s, "sf", x)
    [] k = "coll" -> /\ Free(s, "ce", x)
                     /\ LET h == m.eh[x] IN Free(s, "rv", m.tl[h]) /\ Free(s, "rv", m.tl[m.tw[h]])

AnswersOK(s, m) ==
  /\ \A v \in m.V : (s.mr[v] = 1) = May(s, m, "repos", v)
  /\ \A e \in m.E : /\ (s.ms[e] = 1) = May(s, m, "split", e)
                    /\ (s.mf[e] = 1) = May(s, m, "flip", e)
                    /\ (s.mc[e] = 1) = May(s, m, "coll", e)
  /\ \A f \in m.F : (s.mt[f] = 1) = May(s, m, "fsplit", f)

Edits == {"flip", "split", "coll", "fsplit"}
\* the connectivity edit behind a manager edit
MeshOp(e) ==
  CASE e.op = "flip" -> [op |-> "flip", a |-> <<e.a[1], 1>>, r |-> <<e.r>>, x |-> ""]
    [] e.op = "split" -> [op |-> "split", a |-> e.a, r |-> <<e.r>>, x |-> ""]
    [] e.op = "coll" -> [op |-> "collapse", a |-> e.a, r |-> <<e.r>>, x |-> ""]
    [] e.op = "fsplit" -> [op |-> "insV", a |-> e.a, r |-> <<e.r>>, x |-> ""]
    [] OTHER -> [op |-> "compress", a |-> <<>>, r |-> <<>>, x |-> ""]

MustRefuse(ps, q, e) == ~May(ps, q, e.op, e.a[1]) \/ RefusalExpected(q, MeshOp(e))

-------------------------------------------------------------------------------
(* Positions *)
Near(p, x) == \A c \in 1..3 : p[c] - x[c] \in -2..2
\* (4-k) a + k b over 4, k = t / 1024
Mix(a, b, t) == [c \in 1..3 |-> ((4 - t \div 1024) * a[c] + (t \div 1024) * b[c]) \div 4]
RECURSIVE WSum(_, _, _, _)
WSum(ps, R, w, c) == IF R = <<>> THEN 0 ELSE w[1] * ps[R[1]][c] + WSum(ps, Tail(R), Tail(w), c)

NewPos(ps, q, e) ==
  IF e.op = "fsplit" THEN
     IF e.mode = 2 THEN e.np
     ELSE LET ring == Ring(q, q.fh[e.a[1]])
              corners == [k \in 1..Len(ring) |-> q.tl[ring[k]]] IN
          [c \in 1..3 |-> WSum(ps.pos, corners, e.w, c) \div 4]
  ELSE IF e.mode # 0 THEN e.np
  ELSE LET h == q.eh[e.a[1]] IN Mix(ps.pos[q.tl[h]], ps.pos[q.tl[q.tw[h]]], e.t)

PositionFails(ps, q, e, s, p) ==
  IF ~s.geo THEN {}
  ELSE LET moved == CASE e.op = "repos" -> IF e.r = 0 THEN {} ELSE {e.a[1]}
                      [] e.op = "flip" -> {}
                      [] e.op \in {"split"} -> IF e.r = 0 THEN {} ELSE {p.tl[e.r]}
                      [] e.op \in {"coll", "fsplit"} -> IF e.r = 0 THEN {} ELSE {e.r}
                      [] OTHER -> {} IN
       (IF \A v \in (p.V \cap q.V) \ moved : s.pos[v] = ps.pos[v] THEN {} ELSE {"positions of other vertices"})
       \cup (IF moved = {} THEN {}
             ELSE LET v == CHOOSE x \in moved : TRUE
                      want == IF e.op = "repos" THEN [c \in 1..3 |-> ps.pos[v][c] + e.o[c]] ELSE NewPos(ps, q, e) IN
                  IF Near(s.pos[v], want) THEN {} ELSE {"position of the vertex placed by " \o e.op})

(* Constraint flags: surviving elements keep theirs, new ones get the default, and both pieces of a split edge get what
   held for the edge.                                                                                                *)
FlagFails(ps, q, e, s, p, d) ==
  LET pieces == IF e.op = "split" /\ e.r # 0
                THEN {p.ed[x] : x \in {h \in p.H : p.tl[h] = p.tl[e.r]
                                                   /\ (h = e.r \/ (p.ed[h] \in p.E /\ Tip(p, h) = q.tl[q.eh[e.a[1]]]
                                                                   /\ h = p.tw[Pv(p, p.tw[Pv(p, e.r)])]))}}
                ELSE {}
      kindOf(n) == CASE n = "rv" -> "repos" [] n = "se" -> "split" [] n = "ce" -> "coll" [] n = "fe" -> "flip" [] n = "sf" -> "fsplit"
      want(n, x) == IF x \in pieces /\ n \in {"se", "ce", "fe"} THEN May(ps, q, kindOf(n), e.a[1])
                    ELSE IF x \in ElemsOf(q, n) THEN Get(ps, n)[x] = 1
                    ELSE d[n] IN
  {"constraint " \o n \o " after " \o e.op : n \in
     {n \in Names : \/ On(s, n) # On(ps, n)
                    \/ On(s, n) /\ \E x \in ElemsOf(p, n) : (Get(s, n)[x] = 1) # want(n, x)}}

\* after renumbering, everything keeps its place in iteration order
PermFails(ps, q, s, p) ==
  LET inOrder(set, f) == [k \in 1..Len(set) |-> f[set[k]]]
      ok(n) == On(s, n) = On(ps, n) /\
               (On(s, n) => CASE n = "rv" -> inOrder(s.V, s.rv) = inOrder(ps.V, ps.rv)
                              [] n = "sf" -> inOrder(s.F, s.sf) = inOrder(ps.F, ps.sf)
                              [] OTHER -> inOrder(s.E, Get(s, n)) = inOrder(ps.E, Get(ps, n))) IN
  {"constraint " \o n \o " after compress" : n \in {n \in Names : ~ok(n)}}
  \cup (IF s.geo /\ inOrder(s.V, s.pos) # inOrder(ps.V, ps.pos) THEN {"positions after compress"} ELSE {})

SameAttachments(ps, s) == s.pos = ps.pos /\ \A n \in Names : Get(s, n) = Get(ps, n)

C12Fails(ps, e, d) ==
  LET q == MeshOf(ps)  s == e.s  p == MeshOf(s) IN
  (IF AnswersOK(s, p) THEN {} ELSE {"may... answers"})
  \cup
  CASE e.op \in Edits ->
         IF e.x # "" THEN {"exception from " \o e.op}
         ELSE IF (e.r = 0) # MustRefuse(ps, q, e)
              THEN {IF e.r = 0 THEN "allowed edit refused: " \o e.op ELSE "protected or impossible edit performed: " \o e.op}
         ELSE IF e.r = 0 THEN (IF SameMesh(q, p) /\ SameAttachments(ps, s) THEN {} ELSE {"refused edit changed something: " \o e.op})
         ELSE LET ef == EffectFails(q, p, MeshOp(e)) IN
              IF ef # {} THEN ef ELSE PositionFails(ps, q, e, s, p) \cup FlagFails(ps, q, e, s, p, d)
    [] e.op = "repos" ->
         (IF (e.r = 0) = May(ps, q, "repos", e.a[1]) THEN {"refusal of a reposition"} ELSE PositionFails(ps, q, e, s, p))
         \cup (IF SameMesh(q, p) THEN {} ELSE {"reposition changed the mesh"}) \cup FlagFails(ps, q, e, s, p, d)
    [] e.op = "compress" -> EffectFails(q, p, MeshOp(e)) \cup PermFails(ps, q, s, p)
    [] e.op \in {"setc", "clrc"} ->
         (IF SameMesh(q, p) /\ s.pos = ps.pos THEN {} ELSE {"setting a constraint changed the mesh"})
         \cup {"constraint " \o n \o " disturbed" : n \in {n \in Names \ {e.n} : Get(s, n) # Get(ps, n)}}
         \cup (IF Get(s, e.n) = e.vals THEN {} ELSE {"constraint " \o e.n \o " set"})
    [] e.op \in {"reg", "unreg"} -> IF SameMesh(q, p) /\ SameAttachments(ps, s) THEN {} ELSE {"registration changed the mesh"}
    [] OTHER -> {}

-------------------------------------------------------------------------------
(* Handlers *)
Kinds(k) == IF k = "all" THEN {"flip", "split", "coll", "fsplit", "repos"} ELSE {k}
Handler(e) == [h |-> e.h, kinds |-> Kinds(e.kind), pre |-> e.shape # "post", post |-> e.shape # "pre",
               data |-> e.shape = "data", policy |-> e.shape = "policy"]

PreArgs(e) ==
  CASE e.op = "flip" -> <<>> [] e.op \in {"split", "coll"} -> <<e.t>>
    [] e.op = "fsplit" -> [k \in 1..3 |-> 1024 * e.w[k]] [] e.op = "repos" -> e.o
PostElems(e, p) ==
  CASE e.op = "flip" -> e.a
    [] e.op = "split" -> <<e.r, p.tw[Pv(p, p.tw[Pv(p, e.r)])]>>
    [] OTHER -> <<e.r>>
PostArgs(e, hd) ==
  CASE e.op = "flip" -> <<>> [] e.op \in {"split", "coll"} -> <<e.t>>
    [] e.op = "fsplit" -> IF hd.policy THEN [k \in 1..3 |-> 1024 * e.w[k]] ELSE <<>>

C13Fails(e, H) ==
  LET c == e.calls
      done == e.op \in Edits \cup {"repos"} /\ e.r # 0 /\ (e.op = "repos" \/ e.x = "")
      pre == IF done THEN SelectSeq(H, LAMBDA hd : e.op \in hd.kinds /\ hd.pre) ELSE <<>>
      post == IF done /\ e.op # "repos" THEN SelectSeq(H, LAMBDA hd : e.op \in hd.kinds /\ hd.post) ELSE <<>>
      n == Len(pre)
      token(h) == LET K == {k \in 1..n : pre[k].h = h} IN IF K = {} THEN 0 ELSE c[CHOOSE k \in K : TRUE].d IN
  IF ~done THEN (IF c = <<>> THEN {} ELSE {"handlers called without an edit"})
  ELSE IF Len(c) # n + Len(post) THEN {"number of handler calls for " \o e.op}
  ELSE LET p == MeshOf(e.s)
           check(name, ok) == IF ok THEN {} ELSE {name \o " of " \o e.op} IN
       check("before-handlers and their order", \A k \in 1..n : c[k].h = pre[k].h /\ ~c[k].post)
       \cup check("after-handlers and their order", \A k \in 1..Len(post) : c[n + k].h = post[k].h /\ c[n + k].post)
       \cup check("mesh seen by before-handlers", \A k \in 1..n : c[k].at = 0)
       \cup check("mesh seen by after-handlers", \A k \in 1..Len(post) : c[n + k].at = 1)
       \cup check("element given to before-handlers", \A k \in 1..n : c[k].a = e.a)
       \cup check("elements given to after-handlers", \A k \in 1..Len(post) : c[n + k].a = PostElems(e, p))
       \cup check("parameters given to before-handlers", \A k \in 1..n : c[k].t = PreArgs(e))
       \cup check("parameters given to after-handlers", \A k \in 1..Len(post) : c[n + k].t = PostArgs(e, post[k]))
       \cup check("data passed between handlers",
                  /\ \A k \in 1..n : (c[k].d > 0) = pre[k].data
                  /\ \A k \in 1..Len(post) : c[n + k].d = IF post[k].data THEN token(post[k].h) ELSE 0)

-------------------------------------------------------------------------------
Fails(n) ==
  LET e == Trace[n] IN
  IF e.op = "crash" THEN {"no crash, hang or failed internal assertion (" \o e.why \o ")"}
  ELSE IF ~(IterationOK(e.s) /\ WF(MeshOf(e.s))) THEN {"every pointer names a live element"}
  ELSE IF e.op = "init" THEN (IF Prop = "C12" /\ ~AnswersOK(e.s, MeshOf(e.s)) THEN {"may... answers"} ELSE {})
  ELSE CASE Prop = "C12" -> C12Fails(Trace[e.p].s, e, df) [] Prop = "C13" -> C13Fails(e, hs)

NoDefaults == [n \in Names |-> TRUE]
Init == i = 0 /\ bad = {} /\ hs = <<>> /\ df = NoDefaults
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1] IN
     /\ hs' = CASE e.op = "init" -> <<>>
                [] e.op = "reg" -> Append(hs, Handler(e))
                [] e.op = "unreg" -> SelectSeq(hs, LAMBDA hd : hd.h # e.h)
                [] OTHER -> hs
     /\ df' = CASE e.op = "init" -> NoDefaults
                [] e.op = "setc" -> [df EXCEPT ![e.n] = e.def]
                [] OTHER -> df
     /\ IF e.op # "init" /\ e.p \in bad THEN bad' = bad \cup {i + 1}
        ELSE LET f == Fails(i + 1) IN
             IF f = {} THEN bad' = bad ELSE PrintT(<<"FAIL", i + 1, f>>) /\ bad' = bad \cup {i + 1}
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
