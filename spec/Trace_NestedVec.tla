--------------------------- MODULE Trace_NestedVec --------------------------
(* Trace validation: every recorded call on the real nested vector must be   *)
(* the specification action of the same name, and everything the real object *)
(* then shows through its public accessors must be the specification state.  *)
EXTENDS NestedVec, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>

E == Trace[l]
IsEvent(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1

(* Everything visible after the call. While an appender is open only its count is visible. *)
Obs ==
  LET o == E.obs IN
  IF isopen' THEN o.count = Len(cur')
  ELSE /\ o.len = Len(arrs')
       /\ o.total = Total(arrs')
       /\ o.iter = arrs'
       /\ o.get = arrs'                     \* get(i) for i in 0..len-1
       /\ o.getmut = arrs'                  \* get_mut(i) for i in 0..len-1
       /\ o.flat = Flat(arrs')
       /\ o.vecs = arrs'                    \* conversion to a vector of vectors
       /\ o.firsts = IF arrs' = <<>> THEN <<>> ELSE << arrs'[1], arrs'[1] >>
       /\ o.lasts = IF arrs' = <<>> THEN <<>> ELSE << arrs'[Len(arrs')], arrs'[Len(arrs')] >>
       /\ o.beyond = FALSE                  \* no access beyond the end returned anything
       /\ o.rebuilt = TRUE                  \* equal to one built from scratch from the same arrays

TInit == Init /\ l = 1
Reset == IsEvent("new") /\ arrs' = <<>> /\ isopen' = FALSE /\ cur' = <<>> /\ data' = <<>> /\ ob' = <<>> /\ oe' = <<>> /\ Obs
TNext ==
  \/ Reset
  \/ IsEvent("push") /\ Push(E.a) /\ Obs
  \/ IsEvent("begin") /\ Begin /\ Obs
  \/ IsEvent("single") /\ PushSingle(E.x) /\ Obs
  \/ IsEvent("end") /\ End /\ Obs
  \/ IsEvent("clear") /\ Clear /\ Obs
  \/ IsEvent("set") /\ SetElem(E.i, E.j, E.x) /\ Obs
  \/ IsEvent("setfirst") /\ SetElem(0, E.j, E.x) /\ Obs
  \/ IsEvent("setlast") /\ SetElem(Len(arrs) - 1, E.j, E.x) /\ Obs
  \/ IsEvent("copy") /\ Copy /\ Obs
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("STUCK " \o ToString(d)) /\ FALSE
=============================================================================
