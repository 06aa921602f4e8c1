------------------------------- MODULE Trace_Sdf -------------------------------
EXTENDS Sdf, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st     \* st: the shape, its box, the grid around it, the part that was kept
E == Trace[l]
R == TLCEval(E.r)
None == [V |-> <<>>, C |-> <<>>]
TInit == l = 1 /\ st = [S |-> <<>>, lo |-> <<>>, hi |-> <<>>, ex |-> 0, G |-> None, M |-> None]
IsEvent(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1 /\ E.ok = 1
DoVox == IsEvent("vox") /\ UNCHANGED st /\ (GridOk(R, [i \in 1..2 |-> K * E.lo[i]], [i \in 1..2 |-> K * E.hi[i]], E.h) = TRUE)
DoShape == /\ IsEvent("shape") /\ (BoxOk(E.shape, R.lo, R.hi) = TRUE)
           /\ ((\A k \in Dom(E.at) : Abs(Dist(E.shape, E.at[k]) - R.at[k]) <= 3) = TRUE)
           /\ st' = [S |-> E.shape, lo |-> R.lo, hi |-> R.hi, ex |-> E.ex, G |-> None, M |-> None]
DoGrid == IsEvent("grid") /\ (GridOk(R, st.lo, st.hi, E.h) = TRUE) /\ st' = [st EXCEPT !.G = R]
DoKept == IsEvent("voxsdf") /\ (IsKept(st.S, st.G, R, st.ex) = TRUE) /\ st' = [st EXCEPT !.M = R]
DoQuads == IsEvent("quads") /\ (IsFitted(st.S, st.M, R) = TRUE) /\ UNCHANGED st
DoTris == IsEvent("tris") /\ (IsTriangulated(st.S, st.M, R, st.ex) = TRUE) /\ UNCHANGED st
TNext == DoVox \/ DoShape \/ DoGrid \/ DoKept \/ DoQuads \/ DoTris
TSpec == TInit /\ [][TNext]_<<l, st>>
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("STUCK " \o ToString(d)) /\ FALSE
=============================================================================
