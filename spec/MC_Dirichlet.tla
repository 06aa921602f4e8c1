---------------------------- MODULE MC_Dirichlet ----------------------------
(* All structurally symmetric matrices of small size with full diagonal.      *)
EXTENDS Dirichlet, TLC, Json
CONSTANTS Dim, SD, Vals, Emit   \* values are x-3 for x in Vals (TLC configurations have no negative numbers)
VARIABLES m, nodes
mvars == <<m, nodes>>
Pairs == {<<i, j>> : i, j \in 0..(Dim-1)}
Upper == {p \in Pairs : p[1] < p[2]}
Pats == {{<<i, i>> : i \in 0..(Dim-1)} \cup S \cup {<<p[2], p[1]>> : p \in S} : S \in SUBSET Upper}
NN == Dim \div SD
NodeLists == UNION {[1..n -> 0..(NN-1)] : n \in 0..2}
Init == /\ \E P \in Pats : m \in [P -> {x - 3 : x \in Vals}]
        /\ nodes \in NodeLists
Next == /\ m' = CsrApply(m, Prescribed(nodes, SD)) /\ UNCHANGED nodes
MSpec == Init /\ [][Next]_mvars
D == Prescribed(nodes, SD)
AlgorithmOK == DirichletMat(m, CsrApply(m, D), D)
DecoupledOK == Decoupled(CsrApply(m, D), D)
AgainSame == LET a == CsrApply(m, D) IN \A k \in DOMAIN m : (k[1] # k[2] \/ k[1] \notin D) => CsrApply(a, D)[k] = a[k]
EmitInv == Emit => PrintT("CASE " \o ToJson([s |-> SD, dim |-> Dim, m |-> SetToSortSeq({<<k[1], k[2], m[k]>> : k \in DOMAIN m},
                     LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])), nodes |-> nodes]))
=============================================================================
