--------------------------- MODULE MC_ParAssembly ---------------------------
EXTENDS ParAssembly, TLC
CONSTANTS MaxElems, MaxLen
\* all lists of elements with distinct nodes in any local order
NodeLists == {q \in UNION {[1..n -> Nodes] : n \in 0..MaxLen} : \A i, j \in DOMAIN q : i # j => q[i] # q[j]}
AllFamilies == UNION {[1..n -> NodeLists] : n \in 0..MaxElems}
=============================================================================
