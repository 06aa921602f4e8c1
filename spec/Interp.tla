------------------------------- MODULE Interp --------------------------------
(* Interpolation at points.  A space is given by what it answers: nodes[e] are  *)
(* the (0-based) nodes of element e; at[i] is the answer for point i: nothing   *)
(* (e = -1) or an element with the basis values b, the reference gradients g    *)
(* (one vector per node) and the Jacobian J there.                               *)
EXTENDS Util, TLC
Vec0(d) == [i \in 1..d |-> 0]
UOf(u, s, n) == [k \in 1..s |-> u[s * n + k]]
None(a) == a.e < 0
Nodes(sp, a) == IF None(a) THEN <<>> ELSE sp.nodes[a.e + 1]
Fits(sp, pts, u, s) == \A i \in pts : \A j \in Dom(Nodes(sp, sp.at[i])) : s * (Nodes(sp, sp.at[i])[j] + 1) <= Len(u)
\* the value at the point: a combination of the weights of the nodes of the element
ValueAt(sp, i, u, s) ==
  LET a == sp.at[i]  n == Nodes(sp, a) IN
  [k \in 1..s |-> SumSeq([j \in Dom(n) |-> a.b[j] * u[s * n[j] + k]])]
\* the reference gradient (D x s), and what the gradient has to be: J^T times it is the reference gradient
RefGradAt(sp, i, u, s) ==
  LET a == sp.at[i]  n == Nodes(sp, a) IN
  [r \in 1..sp.D |-> [k \in 1..s |-> SumSeq([j \in Dom(n) |-> a.g[j][r] * u[s * n[j] + k]])]]
IsGradAt(sp, i, u, s, R, scale) ==
  IF None(sp.at[i]) THEN R = [r \in 1..sp.D |-> Vec0(s)]
  ELSE LET G == RefGradAt(sp, i, u, s)  J == sp.at[i].J IN
    /\ Len(R) = sp.D
    /\ \A r \in 1..sp.D : Len(R[r]) = s /\ \A k \in 1..s : SumSeq([q \in 1..sp.D |-> J[q][r] * R[q][k]]) = scale * G[r][k]
Values(sp, pts, u, s) == [i \in Dom(pts) |-> ValueAt(sp, pts[i], u, s)]

(* ------------------- the compressed representation ------------------------ *)
\* nodes, basis values and offsets of the points in order
Build(sp, pts) ==
  FoldSeq(LAMBDA i, c : [off |-> Append(c.off, Len(c.idx) + Len(Nodes(sp, sp.at[i]))), idx |-> c.idx \o Nodes(sp, sp.at[i]),
                         val |-> IF None(sp.at[i]) THEN c.val ELSE c.val \o sp.at[i].b],
          [off |-> <<0>>, idx |-> <<>>, val |-> <<>>], pts)
\* reading it (0-based offsets): what a matrix row does
RowValue(c, i, u, s) == [k \in 1..s |-> SumSeq([q \in 1..(c.off[i + 1] - c.off[i]) |-> c.val[c.off[i] + q] * u[s * c.idx[c.off[i] + q] + k]])]
\* consistent data
OkData(off, idx, val, grad) ==
  /\ \A i \in Dom(off) : off[i] <= Len(idx)
  /\ val # <<-1>> => Len(val) = Len(idx)
  /\ grad # <<-1>> => IF Len(idx) = 0 THEN Len(grad) = 0 ELSE Len(grad) % Len(idx) = 0
=============================================================================
