--------------------------- MODULE Trace_Coloring ---------------------------
EXTENDS Coloring, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, F, colors
tvars == <<l, F, colors>>
E == Trace[l]
IsEvent(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TInit == l = 1 /\ F = <<>> /\ colors = <<>>
Color == IsEvent("color") /\ F' = E.F /\ colors' = E.colors /\ IsColoring(F', colors')
\* lengths tried for one color and whether iteration over storage of that length was accepted
Storage == /\ IsEvent("storage") /\ UNCHANGED <<F, colors>>
           /\ \A q \in Dom(E.lens) : (E.accepted[q] = 1) <=> Accepts(colors[E.color + 1], E.lens[q])
TNext == Color \/ Storage
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("STUCK " \o ToString(d)) /\ FALSE
=============================================================================
