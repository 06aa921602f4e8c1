------------------------------- MODULE QTables -------------------------------
(* Quadrature tables: the rules of the elements, three ways of storing them,  *)
(* and the buffer that the assemblers fill from a table.  Points, weights and *)
(* data are opaque values; elements and rules are numbered from 0.            *)
EXTENDS Util
\* what a caller supplies: kind, rules P, W, D (sequences of sequences; one rule for "uniform") and a map
Consistent(c) ==
  /\ Len(c.P) = Len(c.W) /\ Len(c.P) = Len(c.D)
  /\ \A i \in Dom(c.P) : Len(c.P[i]) = Len(c.W[i]) /\ Len(c.P[i]) = Len(c.D[i])
  /\ c.kind = "compact" => \A i \in Dom(c.map) : c.map[i] < Len(c.P)
  /\ c.kind = "uniform" => Len(c.P) = 1
NoTable == [kind |-> "none", P |-> <<>>, W |-> <<>>, D |-> <<>>, map |-> <<>>]
\* the elements a table knows (a uniform table knows all of them)
Knows(t, e) == CASE t.kind = "uniform" -> e >= 0
                 [] t.kind = "general" -> e \in 0..Len(t.P)-1
                 [] t.kind = "compact" -> e \in 0..Len(t.map)-1
                 [] OTHER -> FALSE
\* the rule of an element
Rule(t, e) == LET i == CASE t.kind = "uniform" -> 1 [] t.kind = "general" -> e + 1 [] OTHER -> t.map[e+1] + 1
              IN [P |-> t.P[i], W |-> t.W[i], D |-> t.D[i]]
\* operations and what they answer
Size(t, e) == Len(Rule(t, e).P)
\* the buffers handed in have to have the size of the rule
QuadOk(t, e, np, nw) == Knows(t, e) /\ np = Size(t, e) /\ nw = Size(t, e)
DataOk(t, e, n) == Knows(t, e) /\ n = Size(t, e)
WithData(t, d) == [t EXCEPT !.D = [i \in Dom(t.W) |-> [j \in Dom(t.W[i]) |-> d]]]
\* the presentation of a rule point by point
Each(r) == [j \in Dom(r.P) |-> <<r.W[j], r.P[j], r.D[j]>>]
\* one rule per element: the table with its sharing undone
Expand(t, n) == [kind |-> "general", P |-> [i \in 1..n |-> Rule(t, i-1).P], W |-> [i \in 1..n |-> Rule(t, i-1).W],
                 D |-> [i \in 1..n |-> Rule(t, i-1).D], map |-> <<>>]
=============================================================================
