---------------------------- MODULE Trace_Workspace --------------------------
EXTENDS Workspace, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ws, memo
tvars == <<l, ws, memo>>
E == Trace[l]
IsEvent(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
NoWs == [t \in 0..7 |-> [ty \in 0..5 |-> Absent]]
Empty == [k \in {} |-> ""]
TInit == l = 1 /\ ws = NoWs /\ memo = Empty
New == IsEvent("new") /\ ws' = NoWs /\ memo' = Empty
\* typed workspace number w (one per thread or object): value found, whether it was created, value stored
Ws == IsEvent("ws") /\ E.got = Get(ws[E.w], E.ty, E.init) /\ (E.created = 2 \/ (E.created = 1) = Created(ws[E.w], E.ty))
      /\ ws' = [ws EXCEPT ![E.w] = Put(@, E.ty, E.set)] /\ UNCHANGED memo
\* the answer with fresh storage defines the function
Fresh == IsEvent("fresh") /\ (E.key \in DOMAIN memo => memo[E.key] = E.out)
         /\ memo' = [k \in DOMAIN memo \cup {E.key} |-> IF k = E.key THEN E.out ELSE memo[k]] /\ UNCHANGED ws
\* with storage that was used before the answer is the same
Reused == IsEvent("reused") /\ E.key \in DOMAIN memo /\ memo[E.key] = E.out /\ UNCHANGED <<ws, memo>>
TNext == New \/ Ws \/ Fresh \/ Reused
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("STUCK " \o ToString(d)) /\ FALSE
=============================================================================
