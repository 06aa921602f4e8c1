--------------------------- MODULE Trace_Spatial -----------------------------
EXTENDS Spatial, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, M
E == Trace[l]
IsEvent(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TInit == l = 1 /\ M = [ct |-> "tri3", V |-> <<>>, C |-> <<>>]
New == IsEvent("mesh") /\ M' = [ct |-> E.ct, V |-> E.V, C |-> E.C]
Find == IsEvent("find") /\ (AnswerOk(M, E.p, E.none = 1, E.k, E.xi) = TRUE) /\ UNCHANGED M
\* one element asked directly; "inside" only for points of the element
One == /\ IsEvent("one") /\ (ClosestOk(M, E.k + 1, E.p, E.xi) = TRUE) /\ UNCHANGED M
       /\ E.inside = 1 => ClosestIn(M, E.k + 1, E.p).dist.n = 0
Bnd == /\ IsEvent("bounds") /\ Len(E.b) = Len(M.C) /\ UNCHANGED M
       /\ \A k \in Dom(M.C) : E.b[k] = Bounds(CellVerts(M, k))
\* the indexed space still is the space
Same == /\ IsEvent("space") /\ E.ne = Len(M.C) /\ E.nn = Len(M.V) /\ E.nodes = M.C /\ E.delegates = 1 /\ UNCHANGED M
\* arbitrary coordinates: the index against its own exhaustive search (squared distances, relative to the size of the mesh)
Rank == /\ IsEvent("rank") /\ UNCHANGED M
        /\ E.none = (IF E.ne = 0 THEN 1 ELSE 0) /\ (E.ne > 0 => E.better = 0 /\ E.claimed = 0 /\ InRef(E.xi))
TNext == New \/ Find \/ One \/ Bnd \/ Same \/ Rank
TSpec == TInit /\ [][TNext]_<<l, M>>
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("STUCK " \o ToString(d)) /\ FALSE
=============================================================================
