----------------------------- MODULE Trace_Poly -----------------------------
EXTENDS Poly, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, M, splits, cuts     \* current mesh, chain of edge splittings, half-spaces cut by since the last "begin"
tvars == <<l, M, splits, cuts>>
E == Trace[l]
NoMesh == [V |-> <<>>, F |-> <<>>, C |-> <<>>]
IsEvent(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Res == [V |-> E.V, F |-> E.F, C |-> E.C]
TInit == l = 1 /\ M = NoMesh /\ splits = <<>> /\ cuts = <<>>
Fresh(N) == M' = N /\ splits' = <<N>> /\ cuts' = <<>>
Become == IF E.set = 1 THEN Fresh(Res) ELSE UNCHANGED <<M, splits, cuts>>
Quiet == UNCHANGED <<M, splits, cuts>>
Given == [V |-> E.inV, F |-> E.inF, C |-> E.inC]
\* building from raw data: refused exactly when an index is out of range
New == IsEvent("new") /\ (E.ok = 1) = Indexed(Given) /\ IF E.ok = 1 THEN Res = Given /\ Fresh(Res) ELSE Fresh(NoMesh)
From == IsEvent("from") /\ (FromRel([ct |-> E.ct, V |-> E.mV, C |-> E.mC], Res) = TRUE) /\ Fresh(Res)
Bnd == IsEvent("bnd") /\ E.list = BoundaryFaces(M) /\ Quiet
Fcc == IsEvent("fcc") /\ E.list = [f \in Dom(M.F) |-> FaceCells(M, f - 1)] /\ Quiet
Vol == IsEvent("vol") /\ E.v = Volume(M) /\ Quiet
Clip == /\ IsEvent("clip")
        /\ LET d == Dot3(E.n, E.p) IN
           /\ (ClipRel(M, E.n, d, Res) = TRUE)     \* as a value: TLC would branch on existential quantifiers of actions
           /\ IF E.set = 1 THEN M' = Res /\ splits' = <<Res>> /\ cuts' = Append(cuts, <<E.n, d>>) ELSE Quiet
\* cutting by a polyhedron: the mesh obtained from the half-spaces of its faces one after another
Begin == IsEvent("begin") /\ cuts' = <<>> /\ UNCHANGED <<M, splits>>
PolyClip == /\ IsEvent("polyclip") /\ Quiet
            /\ Len(cuts) = Len(Faces[E.kind])
            /\ \A f \in Dom(cuts) : HalfSpaceOfFace(E.pv, Faces[E.kind][f], cuts[f][1], cuts[f][2])
            /\ ((Indexed(Res) /\ Closed(Res) /\ (AtMostTwo(M) => AtMostTwo(Res)) /\ Geometry(Res) = Geometry(M)) = TRUE)
\* volumes of complementary parts add up (coordinates not representable exactly): units of the recorder, and its tolerance
Skeleton(nv, F, C) == [V |-> [i \in 1..nv |-> <<>>], F |-> F, C |-> C]
Parts == /\ IsEvent("parts") /\ Quiet
         /\ \A N \in {Skeleton(E.nv1, E.F1, E.C1), Skeleton(E.nv2, E.F2, E.C2)} : Indexed(N) /\ Closed(N) /\ (AtMostTwo(M) => AtMostTwo(N))
         /\ E.inside = 1 /\ Abs(E.v1 + E.v2 - Volume(M)) <= 1
Keep == IsEvent("keep") /\ (PolyKeepRel(M, E.list, Res) = TRUE) /\ Become
Concat == IsEvent("concat") /\ Res = ConcatOf([i \in Dom(E.of) |-> IF "V" \notin DOMAIN E.of[i] THEN M ELSE E.of[i]]) /\ Become
Dedup == IsEvent("dedup") /\ (DedupRel(M, Res) = TRUE) /\ Become
Split == IsEvent("split") /\ (SplitEdgesRel(M, Res) = TRUE) /\ M' = Res /\ splits' = Append(splits, Res) /\ UNCHANGED cuts
SplitN == IsEvent("splitn") /\ E.n < Len(splits) /\ Res = splits[E.n + 1] /\ Quiet
Tri == /\ IsEvent("tri")
       /\ (E.ok = 1) = (\A f \in Dom(M.F) : Len(M.F[f]) >= 3)
       /\ IF E.ok = 1 THEN ((IF SimpleCells(M) THEN TriangulateRel(M, Res) ELSE TriangulateWeak(M, Res)) = TRUE) /\ Become ELSE Quiet
Tet == /\ IsEvent("tet") /\ Quiet
       /\ Closed(M) => /\ (E.ok = 1) = (\A c \in Dom(M.C) : Tetrahedral(M, c))
                       /\ E.ok = 1 => ((\A c \in Dom(M.C) : CellVol(M, c) # 0) => TetMeshRel(M, E.V, E.C))
Translate == IsEvent("translate") /\ Res = [V |-> [i \in Dom(M.V) |-> VAdd(M.V[i], E.t)], F |-> M.F, C |-> M.C] /\ Become
TNext == New \/ From \/ Bnd \/ Fcc \/ Vol \/ Clip \/ Begin \/ PolyClip \/ Parts \/ Keep \/ Concat \/ Dedup \/ Split \/ SplitN \/ Tri \/ Tet \/ Translate
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("STUCK " \o ToString(d)) /\ FALSE
=============================================================================
