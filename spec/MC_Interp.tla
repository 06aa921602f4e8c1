----------------------------- MODULE MC_Interp -------------------------------
(* Building the compressed interpolator point by point and using it any number  *)
(* of times gives the direct interpolation at every point, in order.            *)
EXTENDS Interp, Json
CONSTANTS NN, NP, MaxUses, Emit
VARIABLES sp, pts, u, s, todo, c, uses
vars == <<sp, pts, u, s, todo, c, uses>>
NodeLists == {<<0>>, <<1>>, <<1, 0>>, <<0, NN - 1>>, <<NN - 1, 1, 0>>}
Ans(nodes) == {[e |-> -1, b |-> <<>>, g |-> <<>>, J |-> <<>>]} \cup
  {[e |-> e - 1, b |-> [j \in Dom(nodes[e]) |-> b0 + j * b1], g |-> [j \in Dom(nodes[e]) |-> <<j, 1 - j>>], J |-> J] :
     e \in Dom(nodes), b0 \in {-1, 2}, b1 \in {0, 1}, J \in {<< <<1, 0>>, <<1, 2>> >>}}
MInit ==
  /\ \E nodes \in {<<a, b>> : a \in NodeLists, b \in {<<1>>, <<NN - 1, 0>>}} : \E at \in [1..NP -> Ans(nodes)] :
       sp = [D |-> 2, nodes |-> nodes, at |-> at]
  /\ pts \in {<<>>, <<1>>, [i \in 1..NP |-> i], [i \in 1..NP |-> NP + 1 - i], <<1, 1, NP>>}
  /\ todo = pts /\ c = [off |-> <<0>>, idx |-> <<>>, val |-> <<>>] /\ s \in 1..2 /\ u = <<>> /\ uses = 0
Point ==
  /\ todo # <<>>
  /\ LET a == sp.at[todo[1]]  n == Nodes(sp, a) IN
     c' = [off |-> Append(c.off, Len(c.idx) + Len(n)), idx |-> c.idx \o n, val |-> IF None(a) THEN c.val ELSE c.val \o a.b]
  /\ todo' = Tail(todo) /\ UNCHANGED <<sp, pts, u, s, uses>>
Use ==
  /\ todo = <<>> /\ uses < MaxUses /\ uses' = uses + 1
  /\ \E m \in {1, 3} : u' = [i \in 1..(NN * s) |-> m * i - 2 + uses]
  /\ UNCHANGED <<sp, pts, s, todo, c>>
MNext == Point \/ Use
MSpec == MInit /\ [][MNext]_vars
RowsRight == todo = <<>> /\ u # <<>> => Len(c.off) = Len(pts) + 1 /\ \A i \in Dom(pts) : RowValue(c, i, u, s) = ValueAt(sp, pts[i], u, s)
SameAsBuild == todo = <<>> => c = Build(sp, pts)
OffsetsFit == \A i \in 1..(Len(c.off) - 1) : c.off[i] <= c.off[i + 1] /\ c.off[Len(c.off)] = Len(c.idx) /\ Len(c.val) = Len(c.idx)
\* nothing in a space without answers
Zeros == u # <<>> => \A i \in Dom(pts) : None(sp.at[pts[i]]) => ValueAt(sp, pts[i], u, s) = Vec0(s)
\* linear in the weights
Linear == u # <<>> => \A i \in Dom(pts) : ValueAt(sp, pts[i], [k \in Dom(u) |-> 3 * u[k]], s) = [k \in 1..s |-> 3 * ValueAt(sp, pts[i], u, s)[k]]
EmitInv == uses = MaxUses /\ Emit => PrintT("CASE " \o ToJson([sp |-> sp, pts |-> pts, s |-> s]))
=============================================================================
