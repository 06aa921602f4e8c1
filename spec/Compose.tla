------------------------------- MODULE Compose -------------------------------
(* Composed element assemblers.  A composition is a tree: a leaf with its own *)
(* elements, the aggregate of parts, a renumbering of nodes, or the           *)
(* transformation of the local scalar, vector or matrix.  Elements, nodes and *)
(* local degrees of freedom are 0-based.                                      *)
EXTENDS Assembly
RECURSIVE NumEl(_), Sol(_), NumNodes(_), Valid(_), Nodes(_, _), Sca(_, _), Vec(_, _), Mat(_, _)
NumEl(t) == CASE t.k = "leaf" -> Len(t.el)
              [] t.k = "agg" -> SumSeq([i \in Dom(t.of) |-> NumEl(t.of[i])])
              [] OTHER -> NumEl(t.of)
Sol(t) == CASE t.k = "leaf" -> t.s [] t.k = "agg" -> Sol(t.of[1]) [] OTHER -> Sol(t.of)
NumNodes(t) == CASE t.k \in {"leaf", "map"} -> t.n [] t.k = "agg" -> NumNodes(t.of[1]) [] OTHER -> NumNodes(t.of)
\* aggregates have at least one part, and their parts agree on solution dimension and nodes
Valid(t) == CASE t.k = "leaf" -> TRUE
              [] t.k = "agg" -> Len(t.of) > 0 /\ (\A i \in Dom(t.of) : Valid(t.of[i]))
                                /\ \A i \in Dom(t.of) : Sol(t.of[i]) = Sol(t.of[1]) /\ NumNodes(t.of[i]) = NumNodes(t.of[1])
              [] OTHER -> Valid(t.of)
\* element e of an aggregate is element Loc(t, e)[2] of part Loc(t, e)[1]
Before(t, p) == SumSeq([i \in 1..(p - 1) |-> NumEl(t.of[i])])
Loc(t, e) == LET p == CHOOSE p \in Dom(t.of) : Before(t, p) <= e /\ e < Before(t, p) + NumEl(t.of[p]) IN <<p, e - Before(t, p)>>
Part(t, e) == t.of[Loc(t, e)[1]]
Nodes(t, e) == CASE t.k = "leaf" -> t.el[e + 1]
                 [] t.k = "agg" -> Nodes(Part(t, e), Loc(t, e)[2])
                 [] t.k = "map" -> LET s == Nodes(t.of, e) IN [i \in Dom(s) |-> t.f[s[i] + 1]]
                 [] OTHER -> Nodes(t.of, e)
Ok(v) == [ok |-> 1, v |-> v]
Err(a, b) == [ok |-> 0, v |-> <<a, b>>]
LeafDim(t, e) == t.s * Len(t.el[e + 1])
Fails(t, first) == t.m > 0 /\ first % t.m = t.r
Sca(t, e) == CASE t.k = "leaf" -> IF t.fail[e + 1] = 1 THEN Err(e, t.tag) ELSE Ok(LocalSca(t.tag, e))
               [] t.k = "agg" -> Sca(Part(t, e), Loc(t, e)[2])
               [] t.k = "ts" -> LET x == Sca(t.of, e) IN
                                IF x.ok = 0 THEN x ELSE IF Fails(t, x.v) THEN Err(-1, t.r) ELSE Ok(t.a * x.v + t.c)
               [] OTHER -> Sca(t.of, e)
Vec(t, e) == CASE t.k = "leaf" -> IF t.fail[e + 1] = 1 THEN Err(e, t.tag) ELSE Ok([i \in 1..LeafDim(t, e) |-> LocalVec(t.tag, e, i - 1)])
               [] t.k = "agg" -> Vec(Part(t, e), Loc(t, e)[2])
               [] t.k = "tv" -> LET x == Vec(t.of, e) IN
                                IF x.ok = 0 THEN x ELSE IF Len(x.v) > 0 /\ Fails(t, x.v[1]) THEN Err(-1, t.r)
                                ELSE Ok([i \in Dom(x.v) |-> t.a * x.v[Len(x.v) + 1 - i] + t.c * (i - 1)])
               [] OTHER -> Vec(t.of, e)
Mat(t, e) == CASE t.k = "leaf" -> IF t.fail[e + 1] = 1 THEN Err(e, t.tag)
                                  ELSE Ok([i \in 1..LeafDim(t, e) |-> [j \in 1..LeafDim(t, e) |-> LocalMat(t.tag, e, i - 1, j - 1)]])
               [] t.k = "agg" -> Mat(Part(t, e), Loc(t, e)[2])
               [] t.k = "tm" -> LET x == Mat(t.of, e) IN
                                IF x.ok = 0 THEN x ELSE IF Len(x.v) > 0 /\ Fails(t, x.v[1][1]) THEN Err(-1, t.r)
                                ELSE Ok([i \in Dom(x.v) |-> [j \in Dom(x.v) |-> t.a * x.v[j][i] + t.c * ((i - 1) - 2 * (j - 1))]])
               [] OTHER -> Mat(t.of, e)
Whole(t) == [s |-> Sol(t), n |-> NumNodes(t), el |-> [e \in 1..NumEl(t) |-> <<Nodes(t, e - 1), Sca(t, e - 1), Vec(t, e - 1), Mat(t, e - 1)>>]]
\* the offsets of the parts, and the last part that starts at or before the element
Offsets(t) == [p \in Dom(t.of) |-> Before(t, p)]
LookUp(t, e) == LET p == Cardinality({q \in Dom(t.of) : Offsets(t)[q] <= e}) IN <<p, e - Offsets(t)[p]>>
=============================================================================
