----------------------------- MODULE MC_Workspace ----------------------------
(* The stack of typed entries implements the map; a computation that resizes, *)
(* populates and reads a buffer answers a function of its input, a failed one *)
(* (which stops after some of the entries) notwithstanding.                   *)
EXTENDS Workspace, TLC, Json
CONSTANTS Types, Vals, MaxN, MaxSteps, Emit
VARIABLES st, m, got, buf, out, want, n, hist
mvars == <<st, m, got, buf, out, want, n, hist>>
Inputs == UNION {[1..k -> Vals] : k \in 0..MaxN}
MInit == st = <<>> /\ m = [t \in Types |-> Absent] /\ got = 0 /\ buf = <<>> /\ out = <<>> /\ want = <<>> /\ n = 0 /\ hist = <<>>
Rec(e) == hist' = (IF Emit THEN Append(hist, e) ELSE <<>>) /\ n' = n + 1
Use == \E ty \in Types, init \in Vals, v \in Vals :
         /\ st' = StorePut(Access(st, ty, init), v)
         /\ m' = Put(m, ty, v)
         /\ got' = IF Access(st, ty, init)[Len(Access(st, ty, init))].v = Get(m, ty, init) THEN 1 ELSE 0
         /\ Rec([op |-> "ws", ty |-> ty, init |-> init, set |-> v]) /\ UNCHANGED <<buf, out, want>>
Compute == \E x \in Inputs :
         /\ buf' = Populate(Resize(buf, Len(x), 0), x) /\ out' = buf' /\ want' = x
         /\ n' = n + 1 /\ UNCHANGED <<st, m, got, hist>>
\* an error after k entries: no answer, but the buffer has changed
Fail == \E x \in Inputs : \E k \in 0..Len(x) :
         /\ buf' = [i \in 1..Len(x) |-> IF i <= k THEN x[i] ELSE Resize(buf, Len(x), 0)[i]]
         /\ n' = n + 1 /\ UNCHANGED <<st, m, got, out, want, hist>>
MStop == n = MaxSteps /\ n' = n + 1 /\ UNCHANGED <<st, m, got, buf, out, want, hist>>
MNext == (n < MaxSteps /\ (Use \/ (~Emit /\ (Compute \/ Fail)))) \/ MStop
MSpec == MInit /\ [][MNext]_mvars
Refines == AbsMap(st, Types) = m
Once == \A i, j \in Dom(st) : st[i].ty = st[j].ty => i = j
GotRight == hist # <<>> \/ n > 0 => (got = 1 \/ st = <<>>)
HistoryFree == out = want
EmitInv == (Emit /\ n = MaxSteps + 1) => PrintT("CASE " \o ToJson(hist))
=============================================================================
