--------------------------- MODULE MeshFilesTrace ---------------------------
(* Recorded reading and writing of meshes, checked against MeshFiles. *)
EXTENDS MeshFiles, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<i, bad>>
Chk(c, name) == IF c THEN {} ELSE {name}

\* the soup m was read as e
Read(e, m, stl) ==
  IF ~e.ok THEN Chk(e.x # "", "faces that are no surface are refused")
  ELSE IF e.x # "" THEN {"well-formed input is accepted"}
  ELSE IF ~e.mesh /\ stl THEN Chk(SameTriangles(m, e) /\ e.uv = <<>>, "the triangles of the file")
  ELSE IF ~e.mesh
  THEN Chk(e.pts = m.pts, "vertices as in the file") \cup Chk(e.polys = m.polys, "faces as in the file")
       \cup Chk(e.uv = m.uv, "texture coordinates as in the file")
  ELSE IF stl THEN Chk(SameMerged(m, e), "the surface of the file")
  ELSE Chk(SameSurface(Stripped(m), e, e.uvs), "the surface of the file")

Fails(e) ==
  CASE e.op = "init" -> {}
    [] e.op = "obj" -> Read(e, Obj(e.lines), FALSE)
    [] e.op = "off" -> Read(e, Off(e.V, e.F), FALSE)
    [] e.op = "stl" -> Read(e, Stl(e.val, e.T), TRUE)
    [] e.op = "soupio" -> Chk(e.kept, "writing changes nothing") \cup Read(e, [pts |-> e.orig.pts, polys |-> e.orig.polys, uv |-> e.orig.uv], FALSE)
    [] e.op = "meshio" -> Read(e, [pts |-> e.orig.pts, polys |-> e.orig.polys, uv |-> e.orig.uv], FALSE)
    [] e.op = "cloud" -> IF e.bad THEN Chk(e.x # "", "malformed or unsupported input is reported")
                         ELSE Chk(e.x = "" /\ e.got = e.pts, "point clouds round-trip")
    [] e.op = "bad" -> Chk(e.x # "", "malformed or unsupported input is reported")
    [] OTHER -> {"unknown"}

Init == i = 0 /\ bad = 0
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1] IN
     IF e.op = "crash" THEN PrintT(<<"FAIL", i + 1, {"no crash or hang (" \o e.why \o ")"}>>) /\ bad' = bad + 1
     ELSE LET f == Fails(e) IN IF f = {} THEN bad' = bad ELSE PrintT(<<"FAIL", i + 1, f>>) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
