----------------------------- MODULE MC_Coloring ----------------------------
EXTENDS Coloring, TLC, Json
CONSTANTS Ix, MaxLen, MaxSubs, Emit
VARIABLE F
Lists == UNION {[1..n -> Ix] : n \in 0..MaxLen}
MSpec == F \in UNION {[1..n -> Lists] : n \in 0..MaxSubs} /\ [][UNCHANGED F]_F
GreedyOK == IsColoring(F, Greedy(F))
EmitInv == Emit => PrintT("CASE " \o ToJson([F |-> F]))
=============================================================================
