----------------------------- MODULE BlocksTrace -----------------------------
(* Recorded results of the matrix helpers, checked against Blocks. *)
EXTENDS Blocks, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>
Chk(c, name) == IF c THEN {} ELSE {name}

Fails(e) ==
  CASE e.op = "block" ->
      LET a == Inds(e.A, 1)
          b == Inds(e.A, 0) IN
      Chk(IsBlock(e.AA, e.m, a, a) /\ IsBlock(e.AB, e.m, a, b), "blocks of the A rows")
      \cup Chk(e.full => IsBlock(e.BA, e.m, b, a) /\ IsBlock(e.BB, e.m, b, b), "blocks of the B rows")
      \cup Chk(~e.full => e.BA.rows = 0 /\ e.BA.cols = 0 /\ e.BB.rows = 0 /\ e.BB.cols = 0, "blocks not asked for")
      \cup Chk(e.oa = [k \in 1..Len(a) |-> a[k] - 1] /\ e.ob = [k \in 1..Len(b) |-> b[k] - 1], "original indices")
      \cup Chk(e.new = [k \in 1..Len(e.A) |-> Place(e.A, k)] /\ e.isA = e.A, "new indices")
      \cup Chk(IsPart(e.va, e.v, a) /\ IsPart(e.vb, e.v, b), "parts of a vector")
      \cup Chk(IsMerge(e.back, e.A, e.wa, e.wb), "reassembled vector")
      \cup Chk(SameV(e.same, e.v), "reassembling the parts gives the original")
    [] e.op = "nonsquare" -> Chk(e.x # "" /\ e.y # "" /\ e.z # "" /\ e.w # "", "matrices that are not square are refused")
    [] e.op = "stack" ->
      IF CanStack(e.in, e.vert) THEN Chk(e.x = "" /\ IsStack(e.out, e.in, e.vert), "stacked matrix")
      ELSE Chk(e.x # "", "matrices that do not fit are refused")
    [] e.op = "expand" ->
      Chk(IsExpansion(e.rm, e.m), "real form of a matrix")
      \cup Chk(IsVecExpansion(e.rv, e.v), "real form of a vector")
      \cup Chk(SameV(e.back, e.v), "complex form of a real vector")
      \cup Chk(IsVecExpansion(e.prod, e.cprod), "products agree")
    [] e.op = "symm" ->
      Chk(e.sym = Symmetric(e.m, e.eps), "symmetric matrices are those accepted")
      \cup Chk(e.herm = Hermitian(e.m, e.eps), "Hermitian matrices are those accepted")
    [] e.op = "finite" -> Chk(e.got = e.want, "entries that are not finite are reported")
    [] e.op = "misc" ->
      Chk(IsShift(e.out, e.m, e.s), "shifted diagonal")
      \cup Chk(IsDiagonal(e.eye, e.m.rows, <<1, 0>>), "identity")
      \cup Chk(e.ur = e.d.re /\ e.ui = e.d.im, "unpacked matrix")
    [] e.op = "io" -> Chk(e.x = "" /\ SameM(e.m, e.m2) /\ SameM(e.d, e.d2), "saved and loaded matrices are equal")
    [] OTHER -> {}

Init == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1] IN
     IF e.op = "crash" THEN PrintT(<<"FAIL", i + 1, {"no crash or hang (" \o e.why \o ")"}>>) /\ bad' = bad + 1
     ELSE LET f == Fails(e) IN IF f = {} THEN bad' = bad ELSE PrintT(<<"FAIL", i + 1, f>>) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
