------------------------------ MODULE Materials -------------------------------
(* Hyperelastic materials on exact numbers. A deformation gradient is F = M / n    *)
(* with an integer matrix M (a sequence of rows) and n > 0. Values are scaled so   *)
(* that they are integers: 8 n^4 energy, 2 n^3 stress, 2 n^2 contraction. The       *)
(* logarithm of the Neo-Hookean material is a fixed-point number (unit 1 / U).      *)
EXTENDS Util
Mat(d, f(_, _)) == [i \in 1..d |-> [j \in 1..d |-> f(i, j)]]
SumTo(d, f(_)) == FoldSeq(LAMBDA i, acc : acc + f(i), 0, [i \in 1..d |-> i])
Sc(d, s) == Mat(d, LAMBDA i, j : IF i = j THEN s ELSE 0)
MT(A) == Mat(Len(A), LAMBDA i, j : A[j][i])
MAdd(A, B) == Mat(Len(A), LAMBDA i, j : A[i][j] + B[i][j])
MSc(k, A) == Mat(Len(A), LAMBDA i, j : k * A[i][j])
MMul(A, B) == Mat(Len(A), LAMBDA i, j : SumTo(Len(A), LAMBDA k : A[i][k] * B[k][j]))
Tr(A) == SumTo(Len(A), LAMBDA i : A[i][i])
DD(A, B) == SumTo(Len(A), LAMBDA i : SumTo(Len(A), LAMBDA j : A[i][j] * B[i][j]))
MV(A, v) == [i \in 1..Len(A) |-> SumTo(Len(A), LAMBDA j : A[i][j] * v[j])]
VD(a, b) == SumTo(Len(a), LAMBDA i : a[i] * b[i])
Outer(a, b) == Mat(Len(a), LAMBDA i, j : a[i] * b[j])
E1(d, i) == [k \in 1..d |-> IF k = i THEN 1 ELSE 0]
Nx(i) == (i % 3) + 1
Cof(A) ==
  CASE Len(A) = 1 -> <<<<1>>>>
    [] Len(A) = 2 -> <<<<A[2][2], -A[2][1]>>, <<-A[1][2], A[1][1]>>>>
    [] Len(A) = 3 -> Mat(3, LAMBDA i, j : A[Nx(i)][Nx(j)] * A[Nx(Nx(i))][Nx(Nx(j))] - A[Nx(i)][Nx(Nx(j))] * A[Nx(Nx(i))][Nx(j)])
Det(A) == LET c == Cof(A) IN SumTo(Len(A), LAMBDA j : A[1][j] * c[1][j])

(* ---------------------- polynomial materials: le, stvk, and any ---------------- *)
\* 2 n strain
Strain(M, n) == Mat(Len(M), LAMBDA i, j : M[i][j] + M[j][i] - (IF i = j THEN 2 * n ELSE 0))
\* 2 n^2 Green strain
Green(M, n) == LET g == MMul(MT(M), M) IN Mat(Len(M), LAMBDA i, j : g[i][j] - (IF i = j THEN n * n ELSE 0))
Quad(A, mu, lam) == 2 * mu * DD(A, A) + lam * Tr(A) * Tr(A)
Energy8(kind, M, n, mu, lam) == IF kind = "le" THEN n * n * Quad(Strain(M, n), mu, lam) ELSE Quad(Green(M, n), mu, lam)
Dual(A, mu, lam) == MAdd(MSc(2 * mu, A), Sc(Len(A), lam * Tr(A)))
Stress2(kind, M, n, mu, lam) == IF kind = "le" THEN MSc(n * n, Dual(Strain(M, n), mu, lam)) ELSE MMul(M, Dual(Green(M, n), mu, lam))
Contract2(kind, M, n, mu, lam, a, b) ==
  IF kind = "le" THEN MSc(2 * n * n, MAdd(MSc(mu, MAdd(Sc(Len(M), VD(a, b)), Outer(b, a))), MSc(lam, Outer(a, b))))
  ELSE LET g == Green(M, n)  Ma == MV(M, a)  Mb == MV(M, b) IN
    MAdd(Sc(Len(M), 2 * mu * VD(a, MV(g, b)) + lam * Tr(g) * VD(a, b)),
    MAdd(MSc(2 * mu, Outer(Mb, Ma)), MAdd(MSc(2 * lam, Outer(Ma, Mb)), MSc(2 * mu * VD(a, b), MMul(M, MT(M))))))

(* ------------------------------- Neo-Hookean ---------------------------------- *)
U == 10000
\* 10^8 ln k for k in 1..1200, by ln((m+1)/m) = 2 artanh(1/(2m+1))
S8 == 100000000
RECURSIVE Artanh(_, _, _)
Artanh(p, m, k) == IF p = 0 THEN 0 ELSE p \div k + (IF m > 300 THEN 0 ELSE Artanh(p \div (m * m), m, k + 2))
LnInc(m) == LET q == 2 * m + 1 IN 2 * Artanh(S8 \div q, q, 1) + (IF q > 300 THEN 2 * ((S8 \div q) \div (3 * q * q)) ELSE 0)
LnTable == FoldSeq(LAMBDA m, acc : Append(acc, acc[m] + LnInc(m)), <<0>>, [m \in 1..1199 |-> m])
\* U log det F for det M > 0
LogDet(M, n) == (LnTable[Det(M)] - Len(M) * LnTable[n]) \div (S8 \div U)
\* U L^2 / 2 for l = U L
HalfSq(l) == LET h == l \div 100  r == l - 100 * h IN (h * h + (2 * h * r) \div 100) \div 2
Close(x, y, tol) == x - y <= tol /\ y - x <= tol
\* 2 n^2 tr E
TrE2(M, n) == DD(M, M) - Len(M) * n * n
NHEnergyOk(r, M, n, mu, lam) ==           \* r = U energy
  LET l == LogDet(M, n) IN
  Close(2 * n * n * r, mu * U * TrE2(M, n) - 2 * n * n * mu * l + 2 * n * n * lam * HalfSq(l), 2 * n * n * (3 + 2 * mu + lam * (2 + (4 * Abs(l)) \div U)))
NHStressOk(r, M, n, mu, lam) ==           \* r = U n det(M) stress
  LET l == LogDet(M, n)  c == Cof(M)  J == Det(M) IN
  \A i, j \in 1..Len(M) : Close(r[i][j], (lam * l - mu * U) * n * n * c[i][j] + mu * U * J * M[i][j], 2 + 3 * lam * n * n * Abs(c[i][j]))
NHContractOk(r, M, n, mu, lam, a, b) ==   \* r = U det(M)^2 contraction
  LET l == LogDet(M, n)  c == Cof(M)  J == Det(M)  ca == MV(c, a)  cb == MV(c, b) IN
  \A i, j \in 1..Len(M) : Close(r[i][j], n * n * (lam * U * ca[i] * cb[j] - (lam * l - mu * U) * cb[i] * ca[j]) + (IF i = j THEN mu * U * VD(a, b) * J * J ELSE 0),
                                3 + 3 * lam * n * n * Abs(cb[i] * ca[j]))
=============================================================================
