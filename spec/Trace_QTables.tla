----------------------------- MODULE Trace_QTables ---------------------------
EXTENDS QTables, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, t
tvars == <<l, t>>
E == Trace[l]
IsEvent(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TInit == l = 1 /\ t = NoTable
Supply == [kind |-> E.kind, P |-> E.P, W |-> E.W, D |-> E.D, map |-> E.map]
New == IsEvent("new") /\ IF Consistent(Supply) THEN E.ok = 1 /\ t' = Supply ELSE E.ok = 0 /\ t' = NoTable
Same == UNCHANGED t
SizeE == IsEvent("size") /\ Same /\ IF Knows(t, E.e) THEN E.ok = 1 /\ E.n = Size(t, E.e) ELSE E.ok = 0
Quad == IsEvent("quad") /\ Same
        /\ IF QuadOk(t, E.e, E.np, E.nw) THEN E.ok = 1 /\ E.P = Rule(t, E.e).P /\ E.W = Rule(t, E.e).W ELSE E.ok = 0
Data == IsEvent("data") /\ Same /\ IF DataOk(t, E.e, E.n) THEN E.ok = 1 /\ E.D = Rule(t, E.e).D ELSE E.ok = 0
Both == IsEvent("both") /\ Same
        /\ IF QuadOk(t, E.e, E.n, E.n) THEN E.ok = 1 /\ [P |-> E.P, W |-> E.W, D |-> E.D] = Rule(t, E.e) ELSE E.ok = 0
\* through the reused buffer: contents, presentation point by point, sum of weight * (first coordinate + 1)
Buf == IsEvent("buf") /\ Same
       /\ IF Knows(t, E.e) THEN /\ E.ok = 1 /\ [P |-> E.P, W |-> E.W, D |-> E.D] = Rule(t, E.e)
                                /\ E.each = Each(Rule(t, E.e)) /\ E.iter = E.each
                                /\ E.integral = SumSeq([j \in Dom(E.P) |-> E.W[j] * (E.P[j][1] + 1)])
                           ELSE E.ok = 0
BufWP == IsEvent("bufwp") /\ Same
         /\ IF Knows(t, E.e) THEN E.ok = 1 /\ E.P = Rule(t, E.e).P /\ E.W = Rule(t, E.e).W /\ E.nd = Size(t, E.e) ELSE E.ok = 0
With == IsEvent("with") /\ t.kind = "uniform" /\ E.ok = 1 /\ t' = WithData(t, E.d)
Keep == IsEvent("keep") /\ Same /\ E.ok = 1 /\ E.eq = 1            \* cloned or written and read back
Parts == IsEvent("parts") /\ Same /\ t.kind = "general" /\ E.ok = 1 /\ E.P = t.P /\ E.W = t.W /\ E.D = t.D
\* a rule by itself: weights, points and data side by side
RuleE == IsEvent("rule") /\ Same /\ E.ok = 1 /\ E.each = Each([P |-> E.p, W |-> E.w, D |-> E.d]) /\ E.parts = E.each
         /\ E.integral = SumSeq([j \in Dom(E.p) |-> E.w[j] * (E.p[j][1] + 1)])
TNext == New \/ SizeE \/ Quad \/ Data \/ Both \/ Buf \/ BufWP \/ With \/ Keep \/ Parts \/ RuleE
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("STUCK " \o ToString(d)) /\ FALSE
=============================================================================
