----------------------------- MODULE Dirichlet ------------------------------
(* Homogeneous Dirichlet conditions: the required relation between a matrix   *)
(* before and after, and the row-visiting algorithm for sparse matrices.      *)
EXTENDS Util
Prescribed(nodes, sd) == {sd * a + i : a \in ToSet(nodes), i \in 0..(sd - 1)}
\* m, m2: maps over the stored entries <<row, column>>
DirichletMat(m, m2, D) ==
  /\ DOMAIN m2 = DOMAIN m
  /\ \A k \in DOMAIN m :
       IF k[1] \in D \/ k[2] \in D THEN IF k[1] = k[2] THEN m2[k] > 0 ELSE m2[k] = 0
       ELSE m2[k] = m[k]
DirichletRhs(v, v2, D) == Len(v2) = Len(v) /\ \A r \in Dom(v) : v2[r] = IF (r - 1) \in D THEN 0 ELSE v[r]
Decoupled(m, D) == \A k \in DOMAIN m : (k[1] \in D \/ k[2] \in D) => (m[k] # 0 <=> k[1] = k[2])

(* the sparse algorithm: rows of prescribed unknowns are overwritten, and the
   rows found through their columns (the pattern is symmetric) are cleaned *)
Scale(m) == LET d == {k \in DOMAIN m : k[1] = k[2] /\ m[k] # 0} IN
            IF d = {} THEN 1 ELSE LET k == CHOOSE k \in d : \A q \in d : k[1] <= q[1] IN Abs(m[k])
CsrApply(m, D) ==
  LET sc == Scale(m)
      visit == {k[2] : k \in {q \in DOMAIN m : q[1] \in D /\ q[1] # q[2]}}
  IN [k \in DOMAIN m |-> IF k[1] \in D THEN IF k[1] = k[2] THEN sc ELSE 0
                         ELSE IF k[1] \in visit /\ k[2] \in D THEN 0 ELSE m[k]]
=============================================================================
