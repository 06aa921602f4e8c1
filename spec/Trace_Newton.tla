------------------------------ MODULE Trace_Newton ---------------------------
EXTENDS Newton, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
tvars == <<l, s>>
E == Trace[l]
IsEvent(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TInit == l = 1 /\ s = Start(<<>>, 0, 0, "none")
New == IsEvent("newton") /\ s' = Start(E.x, E.tol2, E.max, E.ls)
Ev == IsEvent("eval") /\ EvalAny(s, E.x, E.f, s')
Jc == IsEvent("jac") /\ Jac(s, E.x, E.rhs, E.e, E.ok = 1, s')
Ret == IsEvent("return") /\ Return(s, E.kind, E.iters, E.x, E.f) /\ s' = [s EXCEPT !.ph = "done"]
TNext == New \/ Ev \/ Jc \/ Ret
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("STUCK " \o ToString(d)) /\ FALSE
=============================================================================
