---------------------------- MODULE MC_Elements -----------------------------
(* Every element of the table is the nodal basis of its polynomial space: the     *)
(* walk visits the points of a grid that is finer than the degrees require.       *)
EXTENDS Elements, Json
CONSTANTS R, Thick, Emit
VARIABLES ct, k
vars == <<ct, k>>
\* all points of the cube, or the nodes and enough others for the degrees
Grid == IF Thick THEN -R..R ELSE {-3, -1, 0, 1, 3}
MInit == ct \in Els /\ k = [j \in 1..RefDim[ct] |-> Min(Grid)]
MNext == \E j \in Dom(k) : \E n \in Grid : n > k[j] /\ (\A o \in Grid : o <= k[j] \/ o >= n) /\ k' = [k EXCEPT ![j] = n] /\ UNCHANGED ct
MSpec == MInit /\ [][MNext]_vars
Vs(c) == [seg2 |-> << <<3>>, <<-1>> >>, seg2s |-> << <<3,1>>, <<-1,2>> >>, tri3 |-> << <<1,0>>, <<4,2>>, <<-1,3>> >>,
  tri3s |-> << <<1,0,2>>, <<4,2,0>>, <<-1,3,1>> >>, quad4 |-> << <<0,0>>, <<4,1>>, <<5,6>>, <<-1,3>> >>,
  tet4 |-> << <<0,1,0>>, <<4,0,1>>, <<1,5,0>>, <<0,1,6>> >>,
  hex8 |-> << <<0,0,0>>, <<4,0,1>>, <<5,6,0>>, <<-1,3,0>>, <<0,1,4>>, <<4,0,5>>, <<4,4,6>>, <<0,3,3>> >>][Base[c]]
\* the node table is a set of different points of the reference element, corners first
NodesRight == /\ Cardinality({RefNode(ct, I) : I \in 1..NN(ct)}) = NN(ct)
              /\ \A I \in 1..NN(Base[ct]) : RefNode(ct, I) = VScale(Q, Corners[Base[ct]][I])
Delta == \A I \in 1..NN(ct) : k = RefNode(ct, I) => Basis(ct, k) = [J \in 1..NN(ct) |-> IF I = J THEN Den(ct) ELSE 0]
Unity == SumSeq(Basis(ct, k)) = Den(ct)
\* as many functions as the space has dimensions, and every monomial reproduced
Complete == /\ Cardinality(Exps(ct)) = NN(ct)
            /\ LET B == TLCEval(Basis(ct, k)) IN \A e \in Exps(ct) : SumSeq([I \in 1..NN(ct) |-> B[I] * Mono(RefNode(ct, I), e)]) = Den(ct) * Mono(k, e)
\* gradients of monomials
GradsExact == LET G == TLCEval(Grads(ct, k)) IN \A e \in Exps(ct) : \A j \in Dom(k) :
  SumSeq([I \in 1..NN(ct) |-> G[j][I] * Mono(RefNode(ct, I), e)])
    = 12 * Den(ct) * (IF e[j] = 0 THEN 0 ELSE e[j] * Mono(k, [e EXCEPT ![j] = @ - 1]))
\* gradients of the functions sum to zero
GradsZero == \A j \in Dom(k) : SumSeq(Grads(ct, k)[j]) = 0
\* reference nodes go to the nodes of the straight element
MapNodes == \A I \in 1..NN(ct) : k = RefNode(ct, I) => VScale(24, MapTo(ct, Vs(ct), k)) = VScale(Den(Base[ct]), Nodes(ct, Vs(ct), 24)[I])
\* interpolating the nodes of the straight element gives the same map, for simplices and tensor products
Isoparametric == LET N == Nodes(ct, Vs(ct), 24) IN
  \A i \in 1..GeoDim[ct] : SumSeq([I \in 1..NN(ct) |-> Val1(ct, I, k) * N[I][i]]) * Den(Base[ct]) = 24 * MapTo(ct, Vs(ct), k)[i] * Den(ct)
\* the Jacobian is constant for simplices and the difference of corners over two
JacAffine == Simplex(ct) => \A i \in 1..GeoDim[ct] : \A j \in Dom(k) :
  2 * Q * Jac(ct, Vs(ct), k)[i][j] = 12 * Den(Base[ct]) * (Vs(ct)[j + 1][i] - Vs(ct)[1][i])
EmitInv == Emit => PrintT("CASE " \o ToJson([ct |-> ct, k |-> k]))
=============================================================================
