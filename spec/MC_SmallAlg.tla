------------------------------ MODULE MC_SmallAlg ------------------------------
(* Three machines, chosen by Kind.                                                  *)
(*  svd:  some factorisation A = U S V^T with U, V orthogonal is turned into one    *)
(*        with rotations, by changing the sign of one column, row and value.        *)
(*  view: a matrix lies somewhere in memory; it is read as if it lay there column    *)
(*        by column, which is only allowed when it does.                            *)
(*  file: stored entries are written one by one; the file is read back.             *)
EXTENDS SmallAlg, TLC, Json
CONSTANTS Kind, N, Vals, Bug, Emit
VARIABLES pc, u, s, vt, k
mvars == <<pc, u, s, vt, k>>
Signs == [1..N -> {0 - 1, 1}]
Perms == {p \in [1..N -> 1..N] : \A a, b \in 1..N : p[a] = p[b] => a = b}
Signed == {[i \in 1..N |-> [j \in 1..N |-> IF p[i] = j THEN g[i] ELSE 0]] : p \in Perms, g \in Signs}
A0(p) == MatMul(MatMul(p[1], DiagM(p[2])), p[3])
Descending(t) == \A i \in 1..(Len(t) - 1) : t[i] >= t[i + 1]
\* view: u = rows, columns, strides, offset; s = memory
Room == 12
\* file: u = set of stored positions (as sorted sequence), s = values, vt = lines
AllPos == {<<i, j>> : i \in 0..(N - 1), j \in 0..(N - 1)}
PosSeq(S) == SetToSortSeq(S, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
MInit ==
  IF Kind = "svd" THEN /\ pc = "u" /\ u \in Signed /\ vt \in Signed /\ s \in {t \in [1..N -> Vals] : Descending(t)}
                       /\ k = A0(<<u, s, vt>>)
  ELSE IF Kind = "view" THEN /\ pc = "ask" /\ vt = <<>> /\ k = 0 /\ s = [a \in 1..Room |-> 100 + a]
                             /\ u \in {q \in (1..2) \X (1..3) \X (1..3) \X (1..3) \X (0..1) : q[5] + (q[1] - 1) * q[3] + (q[2] - 1) * q[4] + 1 <= Room}
  ELSE /\ pc = "write" /\ vt = <<>> /\ k = 1 /\ u \in {PosSeq(S) : S \in SUBSET AllPos} /\ s \in [1..Len(u) -> Vals]
Flip(j) == IF Bug = "keepvalue" THEN s ELSE IF Bug = "all" THEN [i \in 1..N |-> 0 - s[i]] ELSE [s EXCEPT ![j] = 0 - @]
FixU == /\ Kind = "svd" /\ pc = "u" /\ pc' = "v" /\ UNCHANGED <<vt, k>>
        /\ IF DetM(u) = 1 THEN UNCHANGED <<u, s>>
           ELSE \E j \in {i \in 1..N : \A m \in 1..N : Abs(s[i]) <= Abs(s[m])} :
                  u' = [i \in 1..N |-> [u[i] EXCEPT ![j] = 0 - @]] /\ s' = Flip(j)
FixV == /\ Kind = "svd" /\ pc = "v" /\ pc' = "done" /\ UNCHANGED <<u, k>>
        /\ IF DetM(vt) = 1 THEN UNCHANGED <<vt, s>>
           ELSE \E j \in {i \in 1..N : \A m \in 1..N : Abs(s[i]) <= Abs(s[m])} :
                  vt' = [vt EXCEPT ![j] = [m \in 1..N |-> 0 - @[m]]] /\ s' = Flip(j)
\* view
At(q, i, j) == q[5] + (i - 1) * q[3] + (j - 1) * q[4] + 1
Means(q) == [i \in 1..q[1] |-> [j \in 1..q[2] |-> s[At(q, i, j)]]]
AsColMajor(q) == [i \in 1..q[1] |-> [j \in 1..q[2] |-> s[q[5] + (i - 1) + (j - 1) * q[1] + 1]]]
Allowed(q) == IF Bug = "unchecked" THEN At(q, q[1], q[2]) <= Room /\ q[3] = 1 ELSE ColMajor(q[1], q[2], q[3], q[4])
Coerce == Kind = "view" /\ pc = "ask" /\ UNCHANGED <<u, s>> /\ IF Allowed(u) THEN pc' = "done" /\ vt' = AsColMajor(u) /\ k' = Means(u) ELSE pc' = "refused" /\ UNCHANGED <<vt, k>>
\* file
Write == /\ Kind = "file" /\ pc = "write" /\ UNCHANGED <<u, s>>
         /\ IF k > Len(u) THEN pc' = "done" /\ UNCHANGED <<vt, k>>
            ELSE /\ pc' = "write" /\ k' = k + 1
                 /\ vt' = IF Bug = "skipzero" /\ s[k] = 0 THEN vt ELSE Append(vt, <<u[k][1] + (IF Bug = "zerobased" THEN 0 ELSE 1), u[k][2] + (IF Bug = "zerobased" THEN 0 ELSE 1), s[k]>>)
MNext == FixU \/ FixV \/ Coerce \/ Write
MSpec == MInit /\ [][MNext]_mvars
Rotations == (Kind = "svd" /\ pc = "done") => DetM(u) = 1 /\ DetM(vt) = 1
Product == (Kind = "svd" /\ pc = "done") => A0(<<u, s, vt>>) = k
\* the relation used on recorded results accepts exactly these, in units of 1/F
Times(M) == [i \in 1..N |-> [j \in 1..N |-> F * M[i][j]]]
Accepted == Kind = "svd" => (IsRotationSvd(k, Times(u), [i \in 1..N |-> F * s[i]], Times(vt)) <=> (DetM(u) = 1 /\ DetM(vt) = 1 /\ A0(<<u, s, vt>>) = k))
SameEntries == (Kind = "view" /\ pc = "done") => vt = k
OnlyThen == (Kind = "view" /\ pc = "refused") => Means(u) # AsColMajor(u)
Ent == [i \in 1..Len(u) |-> <<u[i][1], u[i][2], s[i]>>]
ReadsBack == (Kind = "file" /\ pc = "done") => IsMMFile([head |-> MMHead, dims |-> <<N, N, Len(u)>>, ent |-> vt], N, N, StoredAt(Ent), LAMBDA p : ValueOf(Ent, p))
EmitInv == (Emit /\ pc = "done") => PrintT("CASE " \o ToJson(IF Kind = "svd" THEN [do |-> "svd", A |-> k, ent |-> <<>>] ELSE [do |-> "csr", A |-> <<>>, ent |-> Ent]))
=============================================================================
