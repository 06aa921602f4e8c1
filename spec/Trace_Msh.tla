----------------------------- MODULE Trace_Msh -------------------------------
EXTENDS Msh, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
IsEvent(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TInit == l = 1
File(g) == [hasNodes |-> g.hasNodes = 1, hasElems |-> g.hasElems = 1, broken |-> g.broken = 1, nn |-> g.nn, nmin |-> g.nmin, nmax |-> g.nmax,
            ne |-> g.ne, emin |-> g.emin, emax |-> g.emax, nb |-> g.nb, eb |-> g.eb]
Res(e) == [ok |-> e.res = "ok", verts |-> e.verts, cells |-> e.cells]
\* a rendered document
Doc == IsEvent("load") /\ E.res \in {"ok", "err"} /\ (Acceptable(File(E.file), E.want, Res(E)) = TRUE)
\* a damaged document of which only the bytes are known: an error, or a mesh without dangling indices
Raw == /\ IsEvent("raw") /\ E.res \in {"ok", "err"}
       /\ E.res = "ok" => E.maxref < E.nverts
\* a path that cannot be read
Missing == IsEvent("missing") /\ E.res = "err"
TNext == Doc \/ Raw \/ Missing
TSpec == TInit /\ [][TNext]_l
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("STUCK " \o ToString(d)) /\ FALSE
=============================================================================
