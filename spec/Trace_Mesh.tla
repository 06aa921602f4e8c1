----------------------------- MODULE Trace_Mesh ------------------------------
EXTENDS Mesh, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, M, refined     \* current mesh, chain of meshes obtained by successive refinement
tvars == <<l, M, refined>>
E == Trace[l]
NoMesh == [ct |-> "none", V |-> <<>>, C |-> <<>>]
IsEvent(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TInit == l = 1 /\ M = NoMesh /\ refined = <<>>
Res == [ct |-> E.ct, V |-> E.V, C |-> E.C]
Become == IF E.set = 1 THEN M' = Res /\ refined' = <<Res>> ELSE UNCHANGED <<M, refined>>
NewMesh == IsEvent("mesh") /\ M' = Res /\ refined' = <<Res>>
NewNone == IsEvent("none") /\ M' = NoMesh /\ refined' = <<>>
Boundary ==
  /\ IsEvent("boundary") /\ UNCHANGED <<M, refined>>
  /\ LET B == BoundaryIds(M) IN
     /\ Len(E.faces) = Cardinality(B)
     /\ ToSet(E.faces) = {<<FaceVerts(M, b[1], b[2]), b[1] - 1, b[2] - 1>> : b \in B}
     /\ IsPermOf(E.cells, {b[1] - 1 : b \in B})
     /\ E.verts = SortedSeq(UNION {ToSet(FaceVerts(M, b[1], b[2])) : b \in B})
Surface == IsEvent("surface") /\ SurfaceRel(M, Res) /\ Become
Keep == IsEvent("keep") /\ KeepRel(M, E.list, Res) /\ Become
Refine == IsEvent("refine") /\ RefineRel(M, Res) /\ M' = Res /\ refined' = Append(refined, Res)
\* n refinements at once, from the mesh the chain started with, are the n-th mesh of the chain
Repeat == IsEvent("repeat") /\ E.n < Len(refined) /\ Res = refined[E.n + 1] /\ UNCHANGED <<M, refined>>
Convert == IsEvent("convert") /\ Res.ct = E.to /\ ConvertRel(M, Res) /\ Become
Reorder == IsEvent("reorder") /\ ReorderRel(M, Res, E.vp, E.cp) /\ Become
Translate == IsEvent("translate") /\ TranslateRel(M, Res, E.t) /\ Become
Proc == IsEvent("proc") /\ ProcRel(E.kind, E.args, Res) /\ M' = Res /\ refined' = <<Res>>
Perm == /\ IsEvent("perm") /\ UNCHANGED <<M, refined>>
        /\ (E.ok = 1 <=> IsPerm(E.list))
        /\ E.ok = 1 => /\ E.len = Len(E.list) /\ E.perm = E.list /\ E.src = E.list
                       /\ E.inv = InvPerm(E.list) /\ E.rev = Reverse(E.list)
                       /\ E.app = ApplyPerm(E.list, E.data) /\ E.back = E.data /\ E.back2 = E.data
Rcm == /\ IsEvent("rcm") /\ UNCHANGED <<M, refined>>
       /\ CuthillMcKee(E.lanes, E.cm) /\ CuthillMcKee(E.lanes, Reverse(E.rcm))
TNext == NewMesh \/ NewNone \/ Boundary \/ Surface \/ Keep \/ Refine \/ Repeat \/ Convert \/ Reorder \/ Translate
         \/ Proc \/ Perm \/ Rcm
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("STUCK " \o ToString(d)) /\ FALSE
=============================================================================
