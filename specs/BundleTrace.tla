----------------------------- MODULE BundleTrace -----------------------------
(* Trace validation of saving and loading mesh bundles (C34) recorded by harness/rich_hist.cpp: the loaded mesh is the
   saved one element for element, its properties are the saved ones, everything else that is asked for is an error, and
   edits of the loaded mesh have the same effects as of any other.                                                   *)
EXTENDS GeneralTrace, MeshBundles
ME == INSTANCE ManifoldEdits

NoGaps(S) == S = 1..Cardinality(S)
Gapless(m) == NoGaps(m.H) /\ NoGaps(m.V) /\ NoGaps(m.E) /\ NoGaps(m.F) /\ NoGaps(m.B)

StateFails(s) ==
  IF ~Usable(s) THEN {"every pointer names a live element"}
  ELSE Invalid(MeshOf(s)) \cup CountFails(s) \cup Lists(s)
       \cup check("a mesh that claims to be compressed has no gaps", s.comp => Gapless(MeshOf(s)))
SameLists(a, b) == a.H = b.H /\ a.V = b.V /\ a.E = b.E /\ a.F = b.F /\ a.B = b.B

EditFails(q, p, e) ==
  IF e.kind = "man"
  THEN LET qm == ME!MeshOf(q)  pm == ME!MeshOf(p) IN
       ME!Invalid(pm) \cup (IF ME!Refused(e) THEN ME!RefusalFails(qm, pm, e) ELSE ME!EffectFails(qm, pm, e))
  ELSE Effect(MeshOf(q), MeshOf(p), e)

LoadFails(sv, e) ==
  LET ok == CASE e.how = "any" -> sv.conn
              [] e.how = "man" -> sv.conn /\ sv.s.man
              [] OTHER -> TRUE IN
  check("a mesh is loaded exactly when one of this sort was saved", e.live = ok /\ (e.x = "") = ok)
  \cup (IF ~e.live THEN {}
        ELSE StateFails(e.s)
             \cup (IF e.how = "other" THEN {}
                   ELSE check("the loaded mesh has the saved elements under their numbers", SameLists(sv.s, e.s))
                        \cup check("the loaded mesh is the saved one",
                               Usable(e.s) /\ SameLists(sv.s, e.s) => MeshOf(e.s) = MeshOf(sv.s))
                        \cup check("a compressed mesh stays compressed", sv.s.comp => e.s.comp)))

\* the mesh a query runs on is the one of the load event, the properties are those of the save event before it
SoupPolys(s) ==
  LET m == MeshOf(s)  r == [v \in m.V |-> CHOOSE k \in 1..Len(s.V) : s.V[k] = v] IN
  [k \in 1..Len(s.F) |-> [n \in 1..Len(Ring(m, m.fh[s.F[k]])) |-> r[m.tl[Ring(m, m.fh[s.F[k]])[n]]]]]
Num(q) == [j \in 1..Len(q) |-> <<q[j][1], q[j][3], q[j][5]>>]
Frac(q) == [j \in 1..Len(q) |-> <<q[j][2], q[j][4], q[j][6]>>]
QueryFails(e) ==
  LET ld == Trace[e.p]  sv == Trace[ld.p]  c == ld.s.c  P == sv.props IN
  CASE e.op = "get" ->
         LET q == Query(P, c, e.k, e.n, e.t) IN
         IF q.ok THEN check("a saved property is found", e.x = "") \cup check("a property has the saved values", e.x = "" => e.v = q.v)
         ELSE check("a property that was not saved this way is an error", e.x # "")
    [] e.op = "geometry" ->
         LET q == Positions(P, c) IN
         IF AllOK(q) THEN check("saved positions", e.x = "" /\ e.on /\ e.v = Tuples(q)) ELSE check("positions that were not saved are an error", e.x # "")
    [] e.op = "lengths" ->
         LET q == <<Query(P, c, "edge", "intrinsic_edge_lengths", "double")>> IN
         IF AllOK(q) THEN check("saved edge lengths", e.x = "" /\ e.on /\ e.v = Tuples(q)) ELSE check("lengths that were not saved are an error", e.x # "")
    [] e.op = "colors" ->
         LET u == Colors(P, c, "uchar")  d == Colors(P, c, "double") IN
         IF AllOK(u) THEN check("saved byte colours", e.x = "" /\ Frac(e.v) = Tuples(u))
         ELSE IF AllOK(d) THEN check("saved real colours", e.x = "" /\ Num(e.v) = Tuples(d))
         ELSE check("colours that were not saved are an error", e.x # "")
SoupFails(sv, e) ==
  LET q == Positions(sv.props, sv.s.c) IN
  IF sv.conn /\ AllOK(q)
  THEN check("a bundle is readable as a polygon mesh", e.x = "")
       \cup check("a bundle has the faces of its mesh", e.x = "" => e.polys = SoupPolys(sv.s))
       \cup check("a bundle has the positions of its vertices", e.x = "" => e.pts = Tuples(q))
  ELSE check("a bundle without a polygon mesh is reported", e.x # "")

BFails(n) ==
  LET e == Trace[n] IN
  CASE e.op = "crash" -> {"no crash, hang or failed internal assertion (" \o e.why \o ")"}
    [] e.op = "init" -> StateFails(e.s)
    [] e.op = "save" -> check("saving succeeds", e.x = "") \cup StateFails(e.s)
                        \cup check("saving leaves the mesh alone", SameLists(Trace[e.p].s, e.s) /\ MeshOf(Trace[e.p].s) = MeshOf(e.s))
    [] e.op = "soup" -> SoupFails(Trace[e.p], e)
    [] e.op = "load" -> LoadFails(Trace[e.p], e)
    [] e.op \in {"get", "geometry", "lengths", "colors"} -> QueryFails(e)
    [] OTHER -> LET s == StateFails(e.s) IN IF s # {} THEN s ELSE EditFails(Trace[e.p].s, e.s, e)

BNext ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ IF Trace[i + 1].op # "init" /\ Trace[i + 1].p \in bad
     THEN bad' = bad \cup {i + 1}
     ELSE LET f == BFails(i + 1) IN
          IF f = {} THEN bad' = bad
          ELSE PrintT(<<"FAIL", i + 1, f>>) /\ bad' = bad \cup {i + 1}
BSpec == Init /\ [][BNext]_vars
=============================================================================
