---------------------------- MODULE MC_Assembly -----------------------------
(* All small discretisations: the pattern and row-scatter algorithms compute *)
(* exactly the couplings and sums; with Emit every discretisation is printed.*)
EXTENDS Assembly, TLC, Json
CONSTANTS NN, MaxElems, MaxLen, Distinct, Emit
VARIABLES elems, sd
mvars == <<elems, sd>>
Nodes == 0..(NN-1)
Lists == {q \in UNION {[1..n -> Nodes] : n \in 0..MaxLen} : Distinct => \A i, j \in DOMAIN q : i # j => q[i] # q[j]}
Init == sd \in 1..2 /\ elems \in UNION {[1..n -> Lists] : n \in 0..MaxElems}
Next == UNCHANGED mvars
MSpec == Init /\ [][Next]_mvars
PatternOK == PatternAlg(elems, NN, sd) = Pattern(elems, NN, sd)
RowsSorted == LET p == Pattern(elems, NN, sd) IN \A r \in Dom(p) : StrictlyIncreasing(p[r])
\* scattering every element row by row equals the sum of the contributions
ScatterOK ==
  Distinct =>
  \A k \in Dom(elems) : \A p \in Dom(elems[k]) : \A i \in 0..(sd-1) :
    LET nodes == elems[k]
        r == sd * nodes[p] + i
        cols == SortedSeq(PatternRow(elems, sd, r))
        lrow == [q \in 1..(sd * Len(nodes)) |-> LocalMat(1, k - 1, sd * (p - 1) + i, q - 1)]
        out == AddRow(cols, [q \in Dom(cols) |-> 0], nodes, SortPerm(nodes), sd, 1, 1, lrow)
        con == MatContrib(nodes, sd, 1, k - 1)
    IN Len(out) = Len(cols) /\ \A q \in Dom(cols) : out[q] = Val(con, <<r, cols[q]>>)
Symmetric == \A a, b \in Nodes : Coupled(elems, a, b) = Coupled(elems, b, a)
EmitInv == Emit => PrintT("CASE " \o ToJson([n |-> NN, s |-> sd, elems |-> elems]))
=============================================================================
