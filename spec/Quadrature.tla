----------------------------- MODULE Quadrature ------------------------------
(* Quadrature rules on the reference domains, decided by moments. The moments    *)
(* are those of products of the domain's own coordinates (below), normalised by   *)
(* the exact integral when it is not zero: then a rule is exact for a polynomial  *)
(* space iff the normalised moments of a basis are one or zero.                   *)
(*   seg, quad, hex: x^a y^b z^c        tri, tet: p1^a p2^b p3^c, p = (1 + x) / 2 *)
(*   pri: p1^a p2^b z^c                 pyr: x^a y^b h^c, h = (1 - z) / 2         *)
EXTENDS Util, TLC
Doms == {"seg", "tri", "quad", "tet", "hex", "pri", "pyr"}
Dim == [seg |-> 1, tri |-> 2, quad |-> 2, tet |-> 3, hex |-> 3, pri |-> 3, pyr |-> 3]
\* coordinates with a symmetric range: odd powers have integral zero
Signed == [seg |-> {1}, tri |-> {}, quad |-> {1, 2}, tet |-> {}, hex |-> {1, 2, 3}, pri |-> {3}, pyr |-> {1, 2}]
ZeroMoment(dom, e) == \E j \in Signed[dom] : e[j] % 2 = 1
Total(e) == SumSeq(e)
\* the space a rule has to integrate: total degree at most s, or degree at most s in every coordinate
InSpace(kind, s, e) == IF kind = "total" THEN Total(e) <= s ELSE \A j \in Dom(e) : e[j] <= s
SpaceExps(dom, kind, s) == {e \in [1..Dim[dom] -> 0..s] : InSpace(kind, s, e)}
NumExps(D, kind, s) == IF kind = "box" THEN Pow(s + 1, D) ELSE
  CASE D = 1 -> s + 1 [] D = 2 -> ((s + 1) * (s + 2)) \div 2 [] D = 3 -> ((s + 1) * (s + 2) * (s + 3)) \div 6
(* ------------------------ the exact integrals ------------------------------ *)
\* rationals <<n, d>> with d > 0
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Red(r) == LET g == Gcd(Abs(r[1]), r[2]) IN <<r[1] \div g, r[2] \div g>>
RAdd(x, y) == LET g == Gcd(x[2], y[2])  d == y[2] \div g IN Red(<<x[1] * d + y[1] * (x[2] \div g), x[2] * d>>)
RMul(x, y) == LET a == Red(<<x[1], y[2]>>)  b == Red(<<y[1], x[2]>>) IN <<a[1] * b[1], a[2] * b[2]>>
REq(x, y) == Red(x) = Red(y)
RSum(s) == FoldSeq(LAMBDA a, acc : RAdd(a, acc), <<0, 1>>, s)
RECURSIVE Fac(_)
Fac(n) == IF n = 0 THEN 1 ELSE n * Fac(n - 1)
\* measure of the domain and the mean of a product of coordinates over it
Vol == [seg |-> <<2, 1>>, tri |-> <<2, 1>>, quad |-> <<4, 1>>, tet |-> <<4, 3>>, hex |-> <<8, 1>>, pri |-> <<4, 1>>, pyr |-> <<8, 3>>]
Mean1(a) == IF a % 2 = 1 THEN <<0, 1>> ELSE <<1, a + 1>>
MeanSimplex(e) == LET D == Len(e) IN Red(<<Fac(D) * FoldSeq(LAMBDA a, acc : Fac(a) * acc, 1, e), Fac(Total(e) + D)>>)
Mean(dom, e) ==
  CASE dom = "seg" -> Mean1(e[1])
    [] dom = "quad" -> RMul(Mean1(e[1]), Mean1(e[2]))
    [] dom = "hex" -> RMul(Mean1(e[1]), RMul(Mean1(e[2]), Mean1(e[3])))
    [] dom \in {"tri", "tet"} -> MeanSimplex(e)
    [] dom = "pri" -> RMul(MeanSimplex(<<e[1], e[2]>>), Mean1(e[3]))
    [] dom = "pyr" -> IF e[1] % 2 = 1 \/ e[2] % 2 = 1 THEN <<0, 1>> ELSE Red(<<3, (e[1] + 1) * (e[2] + 1) * (e[1] + e[2] + e[3] + 3)>>)
(* ----------------------- selection by strength ------------------------------ *)
\* rules [s |-> strength, n |-> points]: the smallest sufficient one, or nothing
Sufficient(rules, s) == {r \in rules : r.s >= s}
Smallest(rules, s) == LET S == Sufficient(rules, s) IN {r \in S : \A o \in S : r.n <= o.n}
\* strengths that have to be available
Strongest == [tri |-> 20, quad |-> 21, tet |-> 10, hex |-> 11, pri |-> 10, pyr |-> 10]
(* --------------------------- what is observed ------------------------------- *)
S == 100000000
Tol(t) == IF t = "f32" THEN 20000 ELSE 3
\* distance of a normalised moment from the nearest integer, on a grid of 1e-14 (what is left of the grid 1/S is rounding)
TolFine(t) == IF t = "f32" THEN 1000000000 ELSE 2000
\* moments m: rows <<exponents..., normalised moment on the grid 1/S, rest>>, one per exponent of the space
RuleExact(dom, kind, s, m, t) ==
  LET D == Dim[dom]  es == TLCEval({SubSeq(r, 1, D) : r \in ToSet(m)}) IN
  /\ Len(m) = NumExps(D, kind, s) /\ Cardinality(es) = Len(m)
  /\ \A i \in Dom(m) : LET e == SubSeq(m[i], 1, D) IN
       /\ InSpace(kind, s, e) /\ \A j \in 1..D : e[j] >= 0
       /\ Abs(m[i][D + 1] - (IF ZeroMoment(dom, e) THEN 0 ELSE S)) <= Tol(t)
       /\ Abs(m[i][D + 2]) <= TolFine(t)
=============================================================================
