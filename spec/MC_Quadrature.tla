---------------------------- MODULE MC_Quadrature -----------------------------
(* The closed forms of the moments are the integrals: checked against iterated    *)
(* integration with exact rationals, the sum rule of barycentric coordinates and  *)
(* slicing. Selection in order of strength finds the smallest sufficient rule      *)
(* when stronger rules are larger. The walk visits all exponents and all tables.  *)
EXTENDS Quadrature, Json
CONSTANTS MaxDeg, MaxS, Emit
VARIABLES mode, dom, e, rules, req, at, res
vars == <<mode, dom, e, rules, req, at, res>>
NoRes == [s |-> -1, n |-> 0]
MInit ==
  \/ /\ mode = "moment" /\ dom \in Doms /\ e = [j \in 1..Dim[dom] |-> 0] /\ rules = {} /\ req = 0 /\ at = 0 /\ res = NoRes
  \/ /\ mode = "select" /\ dom = "tri" /\ e = <<>> /\ res = NoRes
     /\ rules \in SUBSET [s : 1..MaxS, n : 1..3] /\ rules # {}
     \* one rule per strength, stronger ones are larger
     /\ \A a, b \in rules : a # b => a.s # b.s /\ (a.s < b.s => a.n < b.n)
     /\ req \in 0..(MaxS + 2) /\ at = req
Grow == mode = "moment" /\ Total(e) < MaxDeg /\ \E j \in Dom(e) : e' = [e EXCEPT ![j] = @ + 1] /\ UNCHANGED <<mode, dom, rules, req, at, res>>
\* go up until there is a rule of that strength
Look ==
  /\ mode = "select" /\ res = NoRes /\ at <= Max({r.s : r \in rules})
  /\ IF \E r \in rules : r.s = at THEN res' = (CHOOSE r \in rules : r.s = at) /\ UNCHANGED at ELSE at' = at + 1 /\ UNCHANGED res
  /\ UNCHANGED <<mode, dom, e, rules, req>>
MNext == Grow \/ Look
MSpec == MInit /\ [][MNext]_vars
(* integrals in reference coordinates, by iterated integration *)
Mono1(a) == IF a % 2 = 1 THEN <<0, 1>> ELSE <<2, a + 1>>
Sgn(n) == IF n % 2 = 0 THEN 1 ELSE -1
Tri(a, b) == LET x == Mono1(a + b + 1)  y == Mono1(a) IN RMul(<<Sgn(b + 1), b + 1>>, RAdd(x, <<-y[1], y[2]>>))
Binom(n, k) == Fac(n) \div (Fac(k) * Fac(n - k))
\* (1 + x)^a (1 + y)^b expanded
TriShift(a, b) == RSum([i \in 1..((a + 1) * (b + 1)) |-> LET p == (i - 1) % (a + 1)  q == (i - 1) \div (a + 1) IN RMul(<<Binom(a, p) * Binom(b, q), 1>>, Tri(p, q))])
TriangleRight == mode = "moment" /\ dom = "tri" => REq(RMul(Vol["tri"], Mean(dom, e)), RMul(<<1, Pow(2, Total(e))>>, TriShift(e[1], e[2])))
\* the tetrahedron by slices p3 = const: each is a triangle scaled by 1 - p3, and the integral of (1-t)^m t^c is m! c! / (m + c + 1)!
TetRight == mode = "moment" /\ dom = "tet" =>
  REq(Mean(dom, e), RMul(<<3, 1>>, RMul(MeanSimplex(<<e[1], e[2]>>), Red(<<Fac(e[1] + e[2] + 2) * Fac(e[3]), Fac(Total(e) + 3)>>))))
\* the mean over the pyramid by slices of edge 2h, mean of x^a y^b over a slice h^(a+b) / ((a+1)(b+1)); density 3 h^2
PyrRight == mode = "moment" /\ dom = "pyr" =>
  REq(Mean(dom, e), RMul(RMul(Mean1(e[1]), Mean1(e[2])), <<3, e[1] + e[2] + e[3] + 3>>))
\* barycentric coordinates sum to one, so the moments of one degree more add up
SumRule == mode = "moment" /\ dom \in {"tri", "tet"} =>
  LET D == Dim[dom]
      full(f) == Red(<<Fac(D) * FoldSeq(LAMBDA a, acc : Fac(a) * acc, 1, f), Fac(Total(f) + D)>>)
      f == <<0>> \o e
  IN REq(full(f), RSum([j \in 1..(D + 1) |-> full([f EXCEPT ![j] = @ + 1])])) /\ REq(full(f), Mean(dom, e))
ZeroRight == mode = "moment" => (ZeroMoment(dom, e) <=> Mean(dom, e)[1] = 0)
CountRight == mode = "moment" => \A kind \in {"total", "box"} : Cardinality(SpaceExps(dom, kind, Total(e))) = NumExps(Dim[dom], kind, Total(e))
(* selection *)
Selected == mode = "select" /\ res # NoRes => res \in Smallest(rules, req)
NoneRight == mode = "select" /\ res = NoRes /\ at > Max({r.s : r \in rules}) => Sufficient(rules, req) = {}
EmitInv == Emit /\ mode = "moment" /\ (\A j \in 2..Dim[dom] : e[j] = 0) => PrintT("CASE " \o ToJson([dom |-> dom, s |-> e[1]]))
=============================================================================
