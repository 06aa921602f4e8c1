------------------------------ MODULE Assembly ------------------------------
(* What is assembled.  A discretisation is a number of nodes nn, a solution   *)
(* dimension sd and a list of elements, each a sequence of node indices       *)
(* (0-based).  Degree of freedom i of node a is sd*a + i.                     *)
EXTENDS Util

(* ---------------------------- sparsity pattern --------------------------- *)
Coupled(el, a, b) == \E k \in Dom(el) : a \in ToSet(el[k]) /\ b \in ToSet(el[k])
PatternRow(el, sd, r) == {c \in {sd * b + j : b \in UNION {ToSet(el[k]) : k \in Dom(el)}, j \in 0..(sd-1)} :
                             Coupled(el, r \div sd, c \div sd)}
Pattern(el, nn, sd) == [r \in 1..(nn * sd) |-> SortedSeq(PatternRow(el, sd, r - 1))]

(* -------------- local quantities supplied by the user (mock) ------------- *)
\* integer valued and without symmetry, so that every misplaced entry shows
LocalMat(t, e, i, j) == ((31 * (e + 1) + 17 * (i + 1) + 7 * (j + 1) + 3 * (i + 1) * (j + 1) + 13 * t) % 23) - 11
LocalVec(t, e, i) == ((29 * (e + 1) + 11 * (i + 1) + 5 * t + (e + 1) * (i + 1)) % 19) - 9
LocalSca(t, e) == ((37 * (e + 1) + 7 * t) % 31) - 15
BaseMat(r, c) == ((5 * r + 3 * c) % 7) - 3
BaseVec(r) == ((5 * r + 1) % 9) - 4

(* ------------------------- element contributions ------------------------- *)
Keys(nodes, sd) == {sd * nodes[p] + i : p \in Dom(nodes), i \in 0..(sd - 1)}
\* local degrees of freedom (0-based) of global degree of freedom r
Locals(nodes, sd, r) == {sd * (p - 1) + (r % sd) : p \in {q \in Dom(nodes) : nodes[q] = r \div sd}}
MatContrib(nodes, sd, t, e) ==
  [rc \in Keys(nodes, sd) \X Keys(nodes, sd) |->
     SumOver(LAMBDA i : SumOver(LAMBDA j : LocalMat(t, e, i, j), Locals(nodes, sd, rc[2])), Locals(nodes, sd, rc[1]))]
(* --------------------- how the assemblers compute it --------------------- *)
\* pattern from per-node neighbour sets, one insertion loop per element
NodeSets(el, nn) ==
  FoldSeq(LAMBDA nodes, sets : [a \in 0..(nn-1) |-> IF a \in ToSet(nodes) THEN sets[a] \cup ToSet(nodes) ELSE sets[a]],
          [a \in 0..(nn-1) |-> {}], el)
PatternAlg(el, nn, sd) ==
  LET sets == NodeSets(el, nn) IN
  [r \in 1..(nn * sd) |->
     LET ns == SortedSeq(sets[(r - 1) \div sd]) IN
     [q \in 1..(sd * Len(ns)) |-> sd * ns[(q - 1) \div sd + 1] + ((q - 1) % sd)]]
\* one element row added to one global row by one forward scan over the sorted columns
RECURSIVE ScanFind(_, _, _)
ScanFind(cols, from, c) == IF from > Len(cols) THEN 0 ELSE IF cols[from] = c THEN from ELSE ScanFind(cols, from + 1, c)
SortPerm(nodes) == SetToSortSeq(Dom(nodes), LAMBDA p, q : nodes[p] < nodes[q] \/ (nodes[p] = nodes[q] /\ p < q))
RECURSIVE AddRow(_, _, _, _, _, _, _, _)
AddRow(cols, vals, nodes, perm, sd, q, pos, lrow) ==   \* q counts degrees of freedom in sorted order
  IF q > sd * Len(nodes) THEN vals
  ELSE LET p == perm[(q - 1) \div sd + 1]
           i == (q - 1) % sd
           at == ScanFind(cols, pos, sd * nodes[p] + i)
       IN IF at = 0 THEN <<"missing column">>
          ELSE AddRow(cols, [vals EXCEPT ![at] = @ + lrow[sd * (p - 1) + i + 1]], nodes, perm, sd, q + 1, at + 1, lrow)

=============================================================================
