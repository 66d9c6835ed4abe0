--------------------------- MODULE ManifoldTrace ---------------------------
(* Trace validation of histories of ManifoldSurfaceMesh edits recorded by harness/mesh_hist.cpp.

   Line n of the trace is an event e with e.op (the operation), e.a (arguments), e.x (empty, or the message of the
   exception it threw), e.r (results), e.s (the mesh afterwards, read through the public interface) and e.p (the line
   holding the state it was applied to). Line by line, the events allowed by ManifoldMesh are accepted; a rejected
   event is reported with the names of the conditions it breaks, and events that build on it are skipped.

   Prop selects the conditions: C01 validity, C02 counts and enumerations, C03 effects of successful edits,
   C04 refusals, C09 compression.                                                                                  *)
EXTENDS ManifoldEdits, Json, IOUtils

CONSTANT Prop
ASSUME Prop \in {"C01", "C02", "C03", "C04", "C09"}

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, bad
vars == <<i, bad>>

-------------------------------------------------------------------------------
(* Counts, enumerations and topological summaries (C02) *)
RECURSIVE Flood(_, _, _)
Flood(m, front, seen) == LET T == ({m.nx[h] : h \in front} \cup {m.tw[h] : h \in front}) \ seen IN
                         IF T = {} THEN seen ELSE Flood(m, T, seen \cup T)
RECURSIVE Components(_, _)
Components(m, left) == IF left = {} THEN 0
   ELSE LET h == CHOOSE x \in left : TRUE IN 1 + Components(m, left \ Flood(m, {h}, {h}))

CountFails(s) ==
  LET m == MeshOf(s)  c == s.c
      nV == Cardinality(m.V) nE == Cardinality(m.E) nF == Cardinality(m.F) nB == Cardinality(m.B) nH == Cardinality(m.H)
      ext == {h \in m.H : m.fc[h] < 0}
      bv == {m.tl[h] : h \in ext}
      chi == nV - nE + nF + nB          \* boundary loops count as faces (documented convention of the callers)
      dense(q, n) == q = [k \in 1..n |-> k - 1]
      check(name, ok) == IF ok THEN {} ELSE {name} IN
  check("iteration order", IterationOK(s))
  \cup check("number of vertices", c.nV = nV) \cup check("number of edges", c.nE = nE)
  \cup check("number of faces", c.nF = nF) \cup check("number of boundary loops", c.nB = nB)
  \cup check("number of halfedges", c.nH = nH)
  \cup check("number of interior halfedges", c.nIH = nH - Cardinality(ext))
  \cup check("number of exterior halfedges", c.nEH = Cardinality(ext))
  \cup check("number of corners", c.nC = nH - Cardinality(ext))
  \cup check("number of interior vertices", c.nIV = nV - Cardinality(bv))
  \cup check("interior halfedges enumerated", Increasing(c.iIH) /\ SeqSet(c.iIH) = m.H \ ext)
  \cup check("exterior halfedges enumerated", Increasing(c.iEH) /\ SeqSet(c.iEH) = ext)
  \cup check("corners enumerated", Increasing(c.iC) /\ SeqSet(c.iC) = m.H \ ext)
  \cup check("connected components", c.nCC = Components(m, m.H))
  \cup check("euler characteristic", c.chi = chi)
  \cup check("genus", c.nCC = 1 => 2 * c.genus = 2 - chi)
  \cup check("hasBoundary", c.bdry = (nB > 0))
  \cup check("isTriangular", c.tri = (\A f \in m.F : Len(Ring(m, m.fh[f])) = 3))
  \cup check("isCompressed", c.comp => Compressed(m))
  \cup check("vertex indices", dense(c.dV, nV)) \cup check("edge indices", dense(c.dE, nE))
  \cup check("face indices", dense(c.dF, nF)) \cup check("halfedge indices", dense(c.dH, nH))
  \cup check("boundary loop indices", dense(c.dB, nB)) \cup check("corner indices", dense(c.dC, nH - Cardinality(ext)))
  \cup check("interior vertex indices",
         LET inner == SelectSeq(s.V, LAMBDA v : v \notin bv)
             got == SelectSeq(c.dIV, LAMBDA p : p >= 0) IN
         /\ Len(c.dIV) = nV /\ \A k \in 1..nV : (c.dIV[k] >= 0) = (s.V[k] \notin bv)
         /\ dense(got, Len(inner)))
  \cup check("vertex boundary status", c.vbs = [k \in 1..nV |-> s.V[k] \in bv])
  \cup check("manifold summary", c.man)
  \* raw index bounds: every element's raw index is below the reported index size, which is below the capacity
  \cup check("index sizes", (\A h \in m.H : h <= c.szH) /\ (\A v \in m.V : v <= c.szV) /\ (\A x \in m.E : x <= c.szE)
                              /\ (\A f \in m.F : f <= c.szF) /\ (\A b \in m.B : b <= c.szB))
  \cup check("capacities", c.szH <= c.caH /\ c.szV <= c.caV /\ c.szE <= c.caE /\ c.szF <= c.caF /\ c.szB <= c.caB)

PointersFail == {"every pointer names a live element"}

Fails(n) ==
  LET e == Trace[n] IN
  IF e.op = "crash" THEN {"no crash, hang or failed internal assertion (" \o e.why \o ")"}
  ELSE
  LET p == MeshOf(e.s)  wf == IterationOK(e.s) /\ WF(p) IN
  IF ~wf THEN PointersFail
  ELSE CASE Prop = "C01" -> Invalid(p)
         [] Prop = "C02" -> CountFails(e.s)
         [] Prop = "C03" -> IF e.op = "init" \/ Refused(e) THEN {} ELSE EffectFails(MeshOf(Trace[e.p].s), p, e)
         [] Prop = "C04" -> IF e.op \in {"init", "copy"} THEN {} ELSE RefusalFails(MeshOf(Trace[e.p].s), p, e)
         [] Prop = "C09" -> IF e.op = "compress"
                            THEN EffectFails(MeshOf(Trace[e.p].s), p, e) \cup Invalid(p)
                                 \cup (IF Compressed(p) /\ e.s.comp THEN {} ELSE {"mesh is dense after compress"})
                            ELSE Invalid(p)

Init == i = 0 /\ bad = {}
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ IF Trace[i + 1].op # "init" /\ Trace[i + 1].p \in bad
     THEN bad' = bad \cup {i + 1}
     ELSE LET f == Fails(i + 1) IN
          IF f = {} THEN bad' = bad
          ELSE PrintT(<<"FAIL", i + 1, f>>) /\ bad' = bad \cup {i + 1}
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
