---------------------------- MODULE Trace_Compose ----------------------------
EXTENDS Compose, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, t
tvars == <<l, t>>
E == Trace[l]
IsEvent(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
NoTree == [k |-> "leaf", n |-> 0, s |-> 1, el |-> <<>>, tag |-> 0, fail |-> <<>>]
TInit == l = 1 /\ t = NoTree
New == IsEvent("new") /\ (E.ok = 1) = Valid(E.tree) /\ t' = IF Valid(E.tree) THEN E.tree ELSE NoTree
Shape == IsEvent("shape") /\ E.s = Sol(t) /\ E.ne = NumEl(t) /\ E.n = NumNodes(t) /\ UNCHANGED t
In(e) == e < NumEl(t)
\* ok = 2: the call panicked, which is what happens for elements out of range and only for them
NodeList == IsEvent("nodes") /\ (IF In(E.e) THEN E.ok = 1 /\ E.v = Nodes(t, E.e) /\ E.count = Len(Nodes(t, E.e)) ELSE E.ok = 2) /\ UNCHANGED t
Scalar == IsEvent("scalar") /\ (IF In(E.e) THEN [ok |-> E.ok, v |-> E.v] = Sca(t, E.e) ELSE E.ok = 2) /\ UNCHANGED t
Vector == IsEvent("vector") /\ (IF In(E.e) THEN [ok |-> E.ok, v |-> E.v] = Vec(t, E.e) ELSE E.ok = 2) /\ UNCHANGED t
Matrix == IsEvent("matrix") /\ (IF In(E.e) THEN [ok |-> E.ok, v |-> E.v] = Mat(t, E.e) ELSE E.ok = 2) /\ UNCHANGED t
TNext == New \/ Shape \/ NodeList \/ Scalar \/ Vector \/ Matrix
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("STUCK " \o ToString(d)) /\ FALSE
=============================================================================
