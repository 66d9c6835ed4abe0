--------------------------- MODULE QuantityTrace ---------------------------
(* Recorded histories of geometries (mesh and point cloud) checked against QuantityCache. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

C == INSTANCE QuantityCache

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad, st, nm
vars == <<i, bad, st, nm>>

After(s, e) ==
  CASE e.op = "require" -> C!Request(s, e.q)
    [] e.op = "unrequire" -> C!Release(s, e.q)
    [] e.op = "purge" -> C!Purge(s)
    [] e.op = "change" -> C!Change(s, e.fresh)
    [] e.op = "refresh" -> C!Refresh(s)
    [] e.op = "mutate" -> C!Refresh(C!Change(s, e.fresh))

Fails(e, s0, s, names) ==
  (IF e.op = "unrequire" /\ e.ex # ~C!CanRelease(s0, e.q) THEN {"releasing more often than requesting is reported, releasing is not"} ELSE {})
  \cup {"value of " \o names[q] : q \in {x \in C!Held(s) : s.val[x] # C!Any /\ e.val[x] # s.val[x]}}
  \cup {"immediate value of " \o names[e.imm[k][1]] : k \in {x \in 1..Len(e.imm) : e.imm[x][2] # s.now[e.imm[x][1]]}}

Init == i = 0 /\ bad = {} /\ st = <<>> /\ nm = <<>>
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1] IN
     IF e.op = "crash" THEN PrintT(<<"FAIL", i + 1, {"no crash or hang (" \o e.why \o ")"}>>) /\ bad' = bad \cup {i + 1} /\ st' = st /\ nm' = nm
     ELSE LET names == IF e.op = "init" THEN e.names ELSE nm
              s0 == IF e.op = "init" THEN C!Fresh(Len(e.names), e.cnt, e.inp, e.fresh) ELSE st
              s == IF e.op = "init" THEN s0 ELSE After(s0, e) IN
          /\ st' = C!Observe(s, e.val)
          /\ nm' = names
          /\ IF e.op # "init" /\ e.p \in bad THEN bad' = bad \cup {i + 1}
             ELSE LET f == Fails(e, s0, s, names) IN
                  IF f = {} THEN bad' = bad ELSE PrintT(<<"FAIL", i + 1, f>>) /\ bad' = bad \cup {i + 1}
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
