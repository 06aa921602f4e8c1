-------------------------------- MODULE SmallAlg --------------------------------
(* Small dense algebra, reinterpreted matrices and matrix files (C33).              *)
(* Rounded numbers are in units of 1/F. Matrices are sequences of rows.             *)
EXTENDS Util
F == 10000
Near(a, b, t) == Abs(a - b) <= t
NRows(A) == Len(A)
NCols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
Shape(A, m, n) == Len(A) = m /\ \A i \in Dom(A) : Len(A[i]) = n
Row(A, i) == A[i]
ColOf(A, j) == [i \in Dom(A) |-> A[i][j]]
Dot(a, b) == SumSeq([i \in Dom(a) |-> a[i] * b[i]])
Transpose(A) == [j \in 1..NCols(A) |-> ColOf(A, j)]
MatMul(A, B) == [i \in Dom(A) |-> [j \in 1..NCols(B) |-> Dot(A[i], ColOf(B, j))]]
Ident(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
DiagM(s) == [i \in Dom(s) |-> [j \in Dom(s) |-> IF i = j THEN s[i] ELSE 0]]
Cross3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
DetM(A) == IF Len(A) = 1 THEN A[1][1] ELSE IF Len(A) = 2 THEN A[1][1] * A[2][2] - A[1][2] * A[2][1] ELSE Dot(A[1], Cross3(A[2], A[3]))
(* ------------------------------ rotations ---------------------------------- *)
\* rows orthonormal, and the last is where a rotation has it
IsRotation(Q, n) ==
  /\ Shape(Q, n, n)
  /\ \A i, j \in 1..n : Near(Dot(Q[i], Q[j]), (IF i = j THEN F * F ELSE 0), 6 * F)
  /\ IF n = 2 THEN Near(Q[2][1], 0 - Q[1][2], 3) /\ Near(Q[2][2], Q[1][1], 3)
     ELSE LET c == Cross3(Q[1], Q[2]) IN \A k \in 1..3 : Near(c[k] \div F, Q[3][k], 4)
\* A = U S V^T with two rotations and a diagonal matrix (entries of A at most 6)
IsRotationSvd(A, U, S, Vt) ==
  LET n == Len(A) IN
  /\ IsRotation(U, n) /\ IsRotation(Vt, n) /\ Len(S) = n
  /\ \A i, j \in 1..n : Near(SumSeq([k \in 1..n |-> A[i][k] * Vt[j][k]]), (U[i][j] * S[j]) \div F, 60)
\* the rotation M / N
IsPolarRotation(N, M, R) == Shape(R, 3, 3) /\ \A i, j \in 1..3 : Near(N * R[i][j], F * M[i][j], 3 * N)
(* ------------------------------- products ---------------------------------- *)
DiagTimes(d, A) == [i \in Dom(A) |-> [j \in 1..NCols(A) |-> d[i] * A[i][j]]]
CrossMatrix(x) == [i \in 1..3 |-> [j \in 1..3 |-> Cross3(x, Ident(3)[j])[i]]]
IsFrame(x, v) ==
  /\ Len(v) = 2 /\ \A k \in 1..2 : Len(v[k]) = 3 /\ Near(Dot(v[k], v[k]), F * F, 6 * F)
  /\ Near(Dot(v[1], v[2]), 0, 6 * F)
  /\ \A k \in 1..2 : Near(Dot(v[k], x), 0, 2 * (Abs(x[1]) + Abs(x[2]) + Abs(x[3])))
(* ------------------------------ eigenvalues -------------------------------- *)
IsOrthogonal(N, M) == MatMul(M, Transpose(M)) = [i \in Dom(M) |-> [j \in Dom(M) |-> IF i = j THEN N * N ELSE 0]]
IsSpectrum(L, r) ==
  LET lo == Min(ToSet(L))  hi == Max(ToSet(L))
      big == Max({Abs(x) : x \in ToSet(L)})  small == Min({Abs(x) : x \in ToSet(L)}) IN
  /\ Near(r.min, F * lo, 3) /\ Near(r.lo, F * lo, 3) /\ Near(r.hi, F * hi, 3)
  /\ small # 0 => Near(r.cond * small, big * F, 3 * small)
(* ------------------------------- gathering --------------------------------- *)
Gathered(u, idx, d) == [k \in 1..(d * Len(idx)) |-> u[d * idx[((k - 1) \div d) + 1] + ((k - 1) % d) + 1]]
(* ---------------------- a matrix read as another type ----------------------- *)
\* contiguous, column by column
ColMajor(m, n, rs, cs) == (m <= 1 \/ rs = 1) /\ (n <= 1 \/ cs = m)
SetEntry(A, at, w) == [A EXCEPT ![at[1] + 1] = [@ EXCEPT ![at[2] + 1] = w]]
CoerceOk(form, A, at, w, mut, ok, r) ==
  IF ok = 1 THEN /\ form = "shape" => Len(A) = NCols(A)
                 /\ r.seen = A
                 /\ r.after = (IF form \in {"own", "static"} \/ (form = "part" /\ mut = 1) THEN SetEntry(A, at, w) ELSE A)
  ELSE form \notin {"own", "static"} /\ (form = "shape" => Len(A) # NCols(A))
(* --------------------------------- files ------------------------------------ *)
MMHead == "%%MatrixMarket matrix coordinate real general"
\* ent: <<row, column, value>>, counted from 0; a stored entry may well be zero
StoredAt(ent) == {<<e[1], e[2]>> : e \in ToSet(ent)}
ValueOf(ent, p) == SumSeq([k \in Dom(ent) |-> IF <<ent[k][1], ent[k][2]>> = p THEN ent[k][3] ELSE 0])
IsMMFile(f, nr, nc, at, val(_)) ==
  /\ f.head = MMHead /\ f.dims = <<nr, nc, Cardinality(at)>>
  /\ Len(f.ent) = Cardinality(at)
  /\ \A k \in Dom(f.ent) : Len(f.ent[k]) = 3
  /\ ToSet(f.ent) = {<<p[1] + 1, p[2] + 1, val(p)>> : p \in at}
NodePairs(C) == UNION {ToSet(c) \X ToSet(c) : c \in ToSet(C)}
CellNodes(C) == UNION {{<<i - 1, v>> : v \in ToSet(C[i])} : i \in Dom(C)}
=============================================================================
