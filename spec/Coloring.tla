------------------------------ MODULE Coloring ------------------------------
(* Colorings of a family F of index lists (subset k has label k-1).           *)
EXTENDS Util
\* a color: [labels: sequence, subsets: sequence of index lists]
Indices(s) == ToSet(s)
DisjointLists(ss) == \A i, j \in Dom(ss) : i # j => Indices(ss[i]) \cap Indices(ss[j]) = {}
AllLabels(colors) == FoldSeq(LAMBDA c, acc : acc \o c.labels, <<>>, colors)
IsColoring(F, colors) ==
  /\ \A k \in Dom(colors) :
       /\ Len(colors[k].labels) = Len(colors[k].subsets)
       /\ Len(colors[k].labels) > 0                                  \* no empty color
       /\ \A p \in Dom(colors[k].labels) :
            /\ colors[k].labels[p] \in 0..(Len(F) - 1)
            /\ colors[k].subsets[p] = F[colors[k].labels[p] + 1]     \* own label, indices unchanged
       /\ DisjointLists(colors[k].subsets)
  /\ LET all == AllLabels(colors) IN
     Len(all) = Len(F) /\ ToSet(all) = 0..(Len(F) - 1)               \* exactly one color each
  /\ Len(colors) <= Len(F)
\* the largest index of a color, -1 if it has none
MaxIndex(color) == FoldSet(LAMBDA a, b : Max2(a, b), -1, UNION {Indices(s) : s \in ToSet(color.subsets)})
\* storage of length n may be used with the color exactly if every index is below n
Accepts(color, n) == n > MaxIndex(color)

(* the greedy algorithm: repeatedly take every remaining subset that does not meet the current color *)
RECURSIVE OneColor(_, _, _, _, _)
OneColor(F, rem, k, taken, used) ==
  IF k > Len(rem) THEN <<taken, SelectSeq(rem, LAMBDA x : x \notin ToSet(taken))>>
  ELSE IF Indices(F[rem[k]]) \cap used # {} THEN OneColor(F, rem, k + 1, taken, used)
  ELSE OneColor(F, rem, k + 1, Append(taken, rem[k]), used \cup Indices(F[rem[k]]))
RECURSIVE GreedyFrom(_, _)
GreedyFrom(F, rem) ==
  IF rem = <<>> THEN <<>>
  ELSE LET r == OneColor(F, rem, 1, <<>>, {}) IN
       << [labels |-> [p \in Dom(r[1]) |-> r[1][p] - 1], subsets |-> [p \in Dom(r[1]) |-> F[r[1][p]]]] >> \o GreedyFrom(F, r[2])
Greedy(F) == GreedyFrom(F, [k \in Dom(F) |-> k])
=============================================================================
