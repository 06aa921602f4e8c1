----------------------------- MODULE Trace_Vtk -------------------------------
EXTENDS Vtk, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, mesh, adds, title
E == Trace[l]
IsEvent(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
NoMesh == [ct |-> "", D |-> 0, V |-> <<>>, C |-> <<>>, zero |-> ""]
TInit == l = 1 /\ mesh = NoMesh /\ adds = <<>> /\ title = ""
New == /\ IsEvent("mesh")
       /\ mesh' = [ct |-> E.ct, D |-> E.D, V |-> E.V, C |-> E.C, zero |-> E.zero] /\ adds' = <<>> /\ title' = ""
Add == /\ IsEvent("add")
       /\ LET a == [at |-> E.at, kind |-> E.kind, name |-> E.name, nc |-> E.nc, data |-> E.data, zero |-> E.zero] IN
            IF Valid(mesh, a) THEN E.res = "ok" /\ adds' = Append(adds, a) ELSE E.res = "panic" /\ UNCHANGED adds
       /\ UNCHANGED <<mesh, title>>
Title == IsEvent("title") /\ title' = E.title /\ UNCHANGED <<mesh, adds>>
Data(e) == [points |-> e.points, cells |-> e.cells, types |-> e.types, pa |-> e.pa, ca |-> e.ca]
Build == /\ IsEvent("build") /\ E.res = "ok" /\ (Data(E) = Built(mesh, adds)) = TRUE
         /\ UNCHANGED <<mesh, adds, title>>
\* a file read back; the XML format carries no title
Export == /\ IsEvent("export") /\ E.res = "ok" /\ (Data(E) = Built(mesh, adds)) = TRUE
          /\ E.ext = "vtk" => E.title = (IF title = "" THEN E.stem ELSE title)
          /\ UNCHANGED <<mesh, adds, title>>
TNext == New \/ Add \/ Title \/ Build \/ Export
TSpec == TInit /\ [][TNext]_<<l, mesh, adds, title>>
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("STUCK " \o ToString(d)) /\ FALSE
=============================================================================
