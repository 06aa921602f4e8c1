----------------------------- MODULE MC_Materials ------------------------------
(* A deformation is reached by setting one entry at a time. In each state: the    *)
(* documented stresses are the derivatives of the documented energies and the      *)
(* contractions are the second derivatives (differences that are exact for         *)
(* polynomials of degree four), the undeformed state is free of energy and stress, *)
(* energies do not see rotations, and contractions are symmetric.                  *)
EXTENDS Materials, Json, TLC
CONSTANTS Dim, Low, High, Dens, Emit
Params == {<<1, 0>>, <<0, 1>>, <<2, 3>>}
VARIABLES M, n, par, k
vars == <<M, n, par, k>>
LowN == 0 - Low
MInit == n \in Dens /\ par \in Params /\ M = Sc(Dim, n) /\ k = 0
MNext == /\ k < Dim * Dim
         /\ \E x \in LowN..High : M' = [M EXCEPT ![(k \div Dim) + 1][(k % Dim) + 1] = x]
         /\ k' = k + 1 /\ UNCHANGED <<n, par>>
MSpec == MInit /\ [][MNext]_vars
mu == par[1]
lam == par[2]
Bump(A, i, v, t) == [A EXCEPT ![i] = [j \in 1..Dim |-> @[j] + t * v[j]]]
\* 12 f'(0) for polynomials of degree at most four
Stencil(f(_)) == f(0 - 2) - 8 * f(0 - 1) + 8 * f(1) - f(2)
Kinds == {"le", "stvk"}
StressRight == \A q \in Kinds : LET s == Stress2(q, M, n, mu, lam) IN \A i, j \in 1..Dim :
  Stencil(LAMBDA t : Energy8(q, Bump(M, i, E1(Dim, j), t), n, mu, lam)) = 48 * s[i][j]
ContractRight == \A q \in Kinds : \A p, r \in 1..Dim :
  LET a == E1(Dim, p)  b == E1(Dim, r)  c == Contract2(q, M, n, mu, lam, a, b) IN
  /\ \A i, j \in 1..Dim : Stencil(LAMBDA t : MV(Stress2(q, Bump(M, j, b, t), n, mu, lam), a)[i]) = 12 * c[i][j]
  /\ Contract2(q, M, n, mu, lam, b, a) = MT(c)
\* the pieces of the Neo-Hookean derivatives: the cofactor is the derivative of the determinant, and
\* d(F^-T)[H] = -F^-T H^T F^-T, multiplied by det^2
CofRight == LET c == Cof(M) IN \A i, j \in 1..Dim :
  /\ Stencil(LAMBDA t : Det(Bump(M, i, E1(Dim, j), t))) = 12 * c[i][j]
  /\ \A p, q \in 1..Dim : Stencil(LAMBDA t : Cof(Bump(M, i, E1(Dim, j), t))[p][q]) * Det(M) - 12 * c[p][q] * c[i][j] = 0 - 12 * c[p][j] * c[i][q]
InverseRight == MMul(M, MT(Cof(M))) = Sc(Dim, Det(M))
Rest == M = Sc(Dim, n) => \A q \in Kinds : Energy8(q, M, n, mu, lam) = 0 /\ Stress2(q, M, n, mu, lam) = Sc(Dim, 0) /\ TrE2(M, n) = 0 /\ Det(M) = Pow(n, Dim)
\* signed permutations that are rotations
Rots == {R \in {Mat(Dim, LAMBDA i, j : IF p[i] = j THEN s[i] ELSE 0) : p \in {f \in [1..Dim -> 1..Dim] : \A x, y \in 1..Dim : f[x] = f[y] => x = y}, s \in [1..Dim -> {1, 0 - 1}]} : Det(R) = 1}
Frame == \A R \in Rots : LET N == MMul(R, M) IN
  Energy8("stvk", N, n, mu, lam) = Energy8("stvk", M, n, mu, lam) /\ Det(N) = Det(M) /\ TrE2(N, n) = TrE2(M, n)
  /\ Stress2("stvk", N, n, mu, lam) = MMul(R, Stress2("stvk", M, n, mu, lam)) /\ Cof(N) = MMul(R, Cof(M))
\* small strains: the linear model is what is left of the nonlinear one to second order around the identity
Linearised == LET H == MAdd(M, Sc(Dim, 0 - n)) IN
  MAdd(Green(M, n), MSc(0 - n, Strain(M, n))) = MMul(MT(H), H)
\* the table of logarithms is additive
LnAdd == k = 0 => \A x, y \in 1..30 : Close(LnTable[x * y], LnTable[x] + LnTable[y], 1500)
LnAnchor == k = 0 => Close(LnTable[2], 69314718, 50) /\ Close(LnTable[10], 230258509, 300) /\ Close(LnTable[1000], 690775528, 2000)
EmitInv == (Emit /\ k > 0) => PrintT("CASE " \o ToJson([M |-> M, n |-> n, mu |-> mu, lam |-> lam]))
=============================================================================
