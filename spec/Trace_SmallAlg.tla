---------------------------- MODULE Trace_SmallAlg -----------------------------
EXTENDS SmallAlg, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
E == Trace[l]
TInit == l = 1
IsEvent(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
DoSvd == IsEvent("svd") /\ ((E.ok = 1 /\ IsRotationSvd(E.A, E.r.U, E.r.S, E.r.Vt)) = TRUE)
DoApd == IsEvent("apd") /\ ((E.ok = 1 /\ IsPolarRotation(E.N, E.M, E.r.R) /\ E.r.zero = 1) = TRUE)
DoDiag == IsEvent("diag") /\ ((E.ok = 1 /\ E.r = DiagTimes(E.d, E.A)) = TRUE)
DoCross == IsEvent("cross") /\ ((E.ok = 1 /\ E.r = CrossMatrix(E.x)) = TRUE)
DoOrtho == IsEvent("ortho") /\ ((E.ok = 1 /\ IsFrame(E.x, E.r)) = TRUE)
DoEig == IsEvent("eig") /\ ((IsOrthogonal(E.N, E.M) /\ E.ok = 1 /\ IsSpectrum(E.L, E.r)) = TRUE)
DoExtract == IsEvent("extract") /\ ((E.ok = 1 /\ E.r = Gathered(E.u, E.idx, E.d)) = TRUE)
DoCoerce == IsEvent("coerce") /\ (CoerceOk(E.form, E.A, E.at, E.w, E.mut, E.ok, E.r) = TRUE)
DoCast == IsEvent("cast") /\ ((E.ok = 1 /\ E.r.slice = E.v /\ E.r.ref = E.v /\ E.r.other = 0 /\ E.r.pushed = 1 /\ E.r.after = E.v \o <<77>>) = TRUE)
DoText == IsEvent("text") /\ ((E.ok = 1 /\ E.r.ok = 1 /\ E.r.rows = E.A /\ E.r.bad = 1) = TRUE)
DoCsr == IsEvent("csr") /\ ((E.ok = 1 /\ E.r.ok = 1 /\ E.r.bad = 1 /\ IsMMFile(E.r.file, E.nr, E.nc, StoredAt(E.ent), LAMBDA p : ValueOf(E.ent, p))) = TRUE)
DoMesh == IsEvent("mesh") /\ ((E.ok = 1 /\ E.r.ok = 1
    /\ IsMMFile(E.r.nodes, E.nv, E.nv, NodePairs(E.C), LAMBDA p : 64)
    /\ IsMMFile(E.r.cells, Len(E.C), E.nv, CellNodes(E.C), LAMBDA p : 64)) = TRUE)
TNext == DoSvd \/ DoApd \/ DoDiag \/ DoCross \/ DoOrtho \/ DoEig \/ DoExtract \/ DoCoerce \/ DoCast \/ DoText \/ DoCsr \/ DoMesh
TSpec == TInit /\ [][TNext]_l
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("STUCK " \o ToString(d)) /\ FALSE
=============================================================================
