------------------------------ MODULE Trace_Views ------------------------------
EXTENDS Views, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, M
E == Trace[l]
TInit == l = 1 /\ M = [ct |-> "tri3", V |-> <<>>, C |-> <<>>]
IsEvent(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
To(N) == E.ok = 1 /\ M' = TLCEval(N) /\ (Shows(M', E.r) = TRUE)
DoNew == IsEvent("mesh") /\ To([ct |-> E.ct, V |-> E.V, C |-> E.C])
DoTr == (IsEvent("translate") \/ IsEvent("translated")) /\ To(Translated(M, E.a))
DoMap == IsEvent("map") /\ E.seen = Len(M.V) /\ To(Mapped(M, E.a, E.b))
DoAll == IsEvent("all") /\ E.seen = Len(M.V) /\ To(Rotated(M, E.a))
DoPoke == IsEvent("poke") /\ E.seen = Len(M.V) /\ To(Poked(M, E.a, E.b))
DoClone == IsEvent("clone") /\ To(M)
\* vertices that do not exist: no cell
DoBad == IsEvent("bad") /\ UNCHANGED M /\
   IF \A i \in 1..NumCorners[M.ct] : E.a[i] < Len(M.V) THEN E.r = CellOf([M EXCEPT !.C = <<E.a>>], 1) ELSE E.r \in {"none", "panic"}
TNext == DoNew \/ DoTr \/ DoMap \/ DoAll \/ DoPoke \/ DoClone \/ DoBad
TSpec == TInit /\ [][TNext]_<<l, M>>
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("STUCK " \o ToString(d)) /\ FALSE
=============================================================================
