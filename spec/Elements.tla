------------------------------ MODULE Elements ------------------------------
(* Finite elements exactly: reference points are k/Q with integers k, values of  *)
(* basis functions integers over Den(ct). The basis is the nodal basis of a       *)
(* polynomial space; MC_Elements shows that it is (one at the own node and zero   *)
(* at the others, every polynomial of the space reproduced), which makes it the   *)
(* only one. Derivatives come from differences that are exact for polynomials of  *)
(* degree at most four.                                                           *)
EXTENDS Mesh
CONSTANT Q
Els == {"seg2", "seg2s", "tri3", "tri6", "tri3s", "quad4", "quad9", "tet4", "tet10", "tet20", "hex8", "hex20", "hex27"}
Simplices == {"tri3", "tri6", "tri3s", "tet4", "tet10", "tet20"}
Simplex(ct) == ct \in Simplices
RefDim == [seg2 |-> 1, seg2s |-> 1, tri3 |-> 2, tri6 |-> 2, tri3s |-> 2, quad4 |-> 2, quad9 |-> 2,
           tet4 |-> 3, tet10 |-> 3, tet20 |-> 3, hex8 |-> 3, hex20 |-> 3, hex27 |-> 3]
GeoDim == [RefDim EXCEPT !.seg2s = 2, !.tri3s = 3]
Order == [seg2 |-> 1, seg2s |-> 1, tri3 |-> 1, tri6 |-> 2, tri3s |-> 1, quad4 |-> 1, quad9 |-> 2,
          tet4 |-> 1, tet10 |-> 2, tet20 |-> 3, hex8 |-> 1, hex20 |-> 2, hex27 |-> 2]
\* the element that carries the geometry
Base == [seg2 |-> "seg2", seg2s |-> "seg2s", tri3 |-> "tri3", tri6 |-> "tri3", tri3s |-> "tri3s", quad4 |-> "quad4", quad9 |-> "quad4",
         tet4 |-> "tet4", tet10 |-> "tet4", tet20 |-> "tet4", hex8 |-> "hex8", hex20 |-> "hex8", hex27 |-> "hex8"]
Higher == {ct \in Els : Base[ct] # ct}
NN(ct) == NumNodes[ct]
Corners == [seg2 |-> << <<-1>>, <<1>> >>, seg2s |-> << <<-1>>, <<1>> >>,
  tri3 |-> << <<-1,-1>>, <<1,-1>>, <<-1,1>> >>, tri3s |-> << <<-1,-1>>, <<1,-1>>, <<-1,1>> >>,
  quad4 |-> << <<-1,-1>>, <<1,-1>>, <<1,1>>, <<-1,1>> >>,
  tet4 |-> << <<-1,-1,-1>>, <<1,-1,-1>>, <<-1,1,-1>>, <<-1,-1,1>> >>,
  hex8 |-> << <<-1,-1,-1>>, <<1,-1,-1>>, <<1,1,-1>>, <<-1,1,-1>>, <<-1,-1,1>>, <<1,-1,1>>, <<1,1,1>>, <<-1,1,1>> >>]
Parents(ct) == IF ct \in Higher THEN NodeParents[ct] ELSE Singles(NN(ct))
\* the node between its parent corners, times m (a multiple of all numbers of parents)
Mean(V, ps, m) == FoldFunction(VAdd, VScale(0, V[1]), [i \in Dom(ps) |-> VScale(m \div Len(ps), V[ps[i] + 1])])
RefNode(ct, I) == [j \in 1..RefDim[ct] |-> Mean(Corners[Base[ct]], Parents(ct)[I], Q * (IF ct = "tet20" THEN 1 ELSE 8))[j] \div (IF ct = "tet20" THEN 1 ELSE 8)]
SelectN(s, x) == Cardinality({i \in Dom(s) : s[i] = x})
(* ------------------------------- basis -------------------------------------- *)
\* barycentric coordinates over 2Q
Bary(k) == [c \in 1..(Len(k) + 1) |-> IF c = 1 THEN 2 * Q - SumSeq([j \in Dom(k) |-> Q + k[j]]) ELSE Q + k[c - 1]]
Fact(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 1 ELSE IF n = 2 THEN 2 ELSE 6
Mul(s) == FoldSeq(LAMBDA a, acc : acc * a, 1, s)
\* Lagrange basis on the simplex: multiplicity m[c] of every corner, sum n
SimplexVal(n, ps, L) ==
  LET m == [c \in Dom(L) |-> (n * SelectN(ps, c - 1)) \div Len(ps)]
      f(c) == Mul([j \in 1..m[c] |-> n * L[c] - 2 * Q * (j - 1)])
  IN (Fact(n) \div Mul([c \in Dom(L) |-> Fact(m[c])])) * Mul([c \in Dom(L) |-> f(c)])
\* Lagrange basis on the interval, over 2 and 2Q^2 (times Q)
Lin1(a, k) == Q + a * k
Quad1(a, k) == IF a = 0 THEN 2 * (Q * Q - k * k) ELSE k * (k + a * Q)
\* serendipity: corners and middles of edges
Seren(a, k) ==
  LET z == {j \in 1..3 : a[j] = 0} IN
  IF z = {} THEN Mul([j \in 1..3 |-> Lin1(a[j], k[j])]) * (SumSeq([j \in 1..3 |-> a[j] * k[j]]) - 2 * Q)
  ELSE 2 * Mul([j \in 1..3 |-> IF a[j] = 0 THEN Q * Q - k[j] * k[j] ELSE Lin1(a[j], k[j])])
Den(ct) == LET D == RefDim[ct] n == Order[ct] IN
  CASE Simplex(ct) -> Pow(2 * Q, n) * Fact(n)
    [] ct = "hex20" -> 8 * Q * Q * Q * Q
    [] n = 1 -> Pow(2 * Q, D)
    [] OTHER -> Pow(2 * Q * Q, D)
\* position of a node of a cube in {-1, 0, 1}
Pos(ct, I) == [j \in 1..RefDim[ct] |-> Mean(Corners[Base[ct]], Parents(ct)[I], 8)[j] \div 8]
Val1(ct, I, k) ==
  IF Simplex(ct) THEN SimplexVal(Order[ct], Parents(ct)[I], Bary(k))
  ELSE LET a == Pos(ct, I) IN
    CASE ct = "hex20" -> Seren(a, k)
      [] Order[ct] = 1 -> Mul([j \in Dom(k) |-> Lin1(a[j], k[j])])
      [] OTHER -> Mul([j \in Dom(k) |-> Quad1(a[j], k[j])])
Basis(ct, k) == [I \in 1..NN(ct) |-> Val1(ct, I, k)]
\* derivative with respect to coordinate j, for functions F of k with values over den: the result times 12/Q is over den
Shift(k, j, h) == [k EXCEPT ![j] = @ + h]
Diff12(F(_), k, j) == 8 * (F(Shift(k, j, 1)) - F(Shift(k, j, -1))) - (F(Shift(k, j, 2)) - F(Shift(k, j, -2)))
\* 12/Q times the gradients: rows j, columns I
Grads(ct, k) == [j \in Dom(k) |-> [I \in 1..NN(ct) |-> LET f(x) == Val1(ct, I, x) IN Diff12(f, k, j)]]
(* ------------------------------ geometry ------------------------------------ *)
\* image of k/Q times Den(Base)
MapTo(ct, V, k) == LET b == Base[ct] IN
  FoldFunction(VAdd, VScale(0, V[1]), [I \in 1..NN(b) |-> VScale(Val1(b, I, k), V[I])])
\* rows i of the Jacobian, times Den(Base) * 12 / Q
Jac(ct, V, k) == [i \in Dom(V[1]) |-> [j \in Dom(k) |-> LET f(x) == MapTo(ct, V, x)[i] IN Diff12(f, k, j)]]
\* nodes of the straight element with corners V, times m
Nodes(ct, V, m) == [I \in 1..NN(ct) |-> Mean(V, Parents(ct)[I], m)]
Straight(ct, V) == \A I \in 1..NN(ct) : VScale(24, V[I]) = Mean(V, Parents(ct)[I], 24)
Sq(x) == SumSeq([i \in Dom(x) |-> x[i] * x[i]])
Diam2(ct, V) == Max({Sq(VSub(V[I], V[J])) : I, J \in 1..NN(Base[ct])})
\* polynomials of the space, as exponents
Exps(ct) == LET D == RefDim[ct] n == Order[ct] E == [1..D -> 0..n] IN
  IF Simplex(ct) THEN {e \in E : SumSeq(e) <= n}
  ELSE IF ct = "hex20" THEN {e \in E : SumSeq([j \in 1..D |-> IF e[j] >= 2 THEN e[j] ELSE 0]) <= 2}
  ELSE E
Mono(x, e) == Mul([j \in Dom(x) |-> Pow(x[j], e[j])])
\* direction of the outer normal of a surface element
NormalDir(ct, V) == IF ct = "seg2s" THEN LET t == VSub(V[2], V[1]) IN <<t[2], -t[1]>>
  ELSE LET a == VSub(V[2], V[1]) b == VSub(V[3], V[1]) IN <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
=============================================================================
