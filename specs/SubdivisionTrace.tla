-------------------------- MODULE SubdivisionTrace --------------------------
(* Recorded subdivisions checked against Subdivision. *)
EXTENDS Subdivision, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>
Chk(c, name) == IF c THEN {} ELSE {name}

S(s) == {s[k] : k \in 1..Len(s)}
Fn(set, seq) == [x \in set |-> seq[x]]
MeshOf(s) ==
  LET H == S(s.H) V == S(s.V) E == S(s.E) F == S(s.F) B == S(s.B) IN
  [H |-> H, V |-> V, E |-> E, F |-> F, B |-> B,
   nx |-> Fn(H, s.nx), tw |-> Fn(H, s.tw), tl |-> Fn(H, s.tl), ed |-> Fn(H, s.ed), fc |-> Fn(H, s.fc),
   vh |-> Fn(V, s.vh), eh |-> Fn(E, s.eh), fh |-> Fn(F, s.fh), bh |-> Fn(B, s.bh)]

RECURSIVE Comp(_, _, _)
Comp(m, C, fr) == LET n == UNION {{m.nx[h], m.tw[h]} : h \in fr} \ C IN IF n = {} THEN C ELSE Comp(m, C \cup n, n)
Comps(m) == {Comp(m, {m.fh[f]}, {m.fh[f]}) : f \in m.F}

Fails(e, par) ==
  LET m == MeshOf(par.s)
      p == MeshOf(e.s)
      k == e.op IN
  IF e.x # "" THEN \* an edge with the same triangle on both sides may be impossible to split
    Chk(k = "loop" /\ \E h \in m.H : m.fc[h] = m.fc[m.tw[h]], "no error on a valid mesh")
  ELSE IF ~WF(p) THEN {"references are live"}
  ELSE Invalid(p) \cup Chk(Sizes(m, p, k), "element counts")
    \cup Chk(e.fresh, "quantities are refreshed")
    \cup (IF Invalid(p) # {} \/ ~Sizes(m, p, k) THEN {} ELSE
          LET good == [C \in Comps(m) |-> {X \in PhisFrom(m, p, k, CHOOSE h \in C : TRUE) : LooksRight(m, p, k, X)}] IN
          IF \E C \in Comps(m) : good[C] = {} THEN {"refined connectivity"}
          ELSE Chk(\A C \in Comps(m) : \E X \in good[C] : PositionsRight(m, p, k, X, par.pos, e.pos), "positions of new vertices"))
    \cup Chk(OldRight(m, k, par.pos, e.pos), "positions of old vertices")

Init == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1] IN
     IF e.op = "crash" THEN PrintT(<<"FAIL", i + 1, {"no crash or hang (" \o e.why \o ")"}>>) /\ bad' = bad + 1
     ELSE IF e.op = "init" THEN bad' = bad
     ELSE LET f == Fails(e, Trace[e.p]) IN
          IF f = {} THEN bad' = bad ELSE PrintT(<<"FAIL", i + 1, f>>) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
