-------------------------- MODULE MC_DisjointIter ---------------------------
EXTENDS DisjointIter, TLC, Json
CONSTANTS MaxSteps, MaxSubs, Emit
VARIABLE hist
mvars == <<ivars, hist>>
Fams == {f \in UNION {[1..n -> {<<>>, <<0>>, <<1,2>>, <<2>>, <<3,3>>, <<4,0>>}] : n \in 0..MaxSubs} : FamilyDisjoint(f)}
Rec(op, p, k) == hist' = IF Emit THEN Append(hist, <<op, p, k>>) ELSE Append(hist, 0)
MInit == /\ F \in Fams /\ labels = [k \in Dom(F) |-> 3 * k + 2] /\ data = [i \in 1..5 |-> <<i>>]
         /\ pieces = (0 :> [lo |-> 0, hi |-> Len(F), open |-> FALSE]) /\ nid = 1 /\ delivered = <<>> /\ hist = <<>>
Step ==
  \E p \in DOMAIN pieces :
    \/ \E k \in 0..Size(p) : Split(p, k) /\ Rec("split", p, k)
    \/ Open(p) /\ Rec("open", p, 0)
    \/ TakeFront(p) /\ Rec("next", p, 0)
    \/ TakeBack(p) /\ Rec("back", p, 0)
    \/ Nothing(p) /\ (IF Emit THEN hist # <<>> /\ hist[Len(hist)] # <<"next", p, 0>> ELSE TRUE) /\ Rec("next", p, 0)
Stop == Emit /\ Len(hist) = MaxSteps /\ UNCHANGED ivars /\ Rec("stop", 0, 0)
MNext == (Len(hist) < MaxSteps /\ Step) \/ Stop
MSpec == MInit /\ [][MNext]_mvars
EmitInv == (Emit /\ Len(hist) = MaxSteps + 1) => PrintT("CASE " \o ToJson([F |-> F, labels |-> labels, ops |-> SubSeq(hist, 1, MaxSteps)]))
View == <<ivars, Len(hist)>>
=============================================================================
