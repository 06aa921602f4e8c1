----------------------------- MODULE MC_Operators ----------------------------
(* The integrals of the specification are right: the rules reproduce the closed  *)
(* forms of all moments, integrals are additive when a cell is cut (segments,     *)
(* triangles, tetrahedra at an edge; boxes in the middle), and Gauss' theorem      *)
(* holds cell by cell. On them the operators are what they should be: energy,     *)
(* first and second variation belong together (Taylor expansion is exact), the     *)
(* Laplace form is symmetric and kills constants, and does not depend on how a     *)
(* cell is listed. The walk visits cells and polynomials.                          *)
EXTENDS Operators, Json
CONSTANTS MaxDeg, MaxStep, Emit
VARIABLES el, V, u, step
vars == <<el, V, u, step>>
Els == {"tri3", "quad4", "tet4", "hex8"}
Ref(e) == IF e \in Simplices THEN [k \in 1..(RefDim[e] + 1) |-> [i \in 1..RefDim[e] |-> IF k = i + 1 THEN 2 ELSE 0]] ELSE [a \in Dom(Corners(e)) |-> [i \in 1..RefDim[e] |-> 2 * Corners(e)[a][i]]]
MInit == el \in Els /\ V = Ref(el) /\ u = <<<<1>> \o [k \in 1..RefDim[el] |-> 0]>> /\ step = 0
\* linear maps of the cell: shear, stretch, mirror; polynomials grow
Shear == step < MaxStep - (IF el = "hex8" THEN 1 ELSE 0) /\ \E i, j \in 1..RefDim[el] : i # j /\ V' = [k \in Dom(V) |-> [V[k] EXCEPT ![i] = @ + V[k][j]]] /\ step' = step + 1 /\ UNCHANGED <<el, u>>
Stretch == step < MaxStep - (IF el = "hex8" THEN 1 ELSE 0) /\ \E i \in 1..RefDim[el] : V' = [k \in Dom(V) |-> [V[k] EXCEPT ![i] = 1 - 2 * @]] /\ step' = step + 1 /\ UNCHANGED <<el, u>>
Grow == Deg(u) < MaxDeg /\ \E i \in {i \in 1..RefDim[el] : \A k \in (i + 1)..RefDim[el] : u[1][k + 1] = 0} : u' = <<<<3>> \o [k \in 1..RefDim[el] |-> IF k = i THEN u[1][k + 1] + 1 ELSE u[1][k + 1]]>> \o <<<<-1>> \o [k \in 1..RefDim[el] |-> u[1][k + 1]]>> /\ UNCHANGED <<el, V, step>>
MNext == Shear \/ Stretch \/ Grow
MSpec == MInit /\ [][MNext]_vars
Mesh1(W) == [el |-> el, V |-> W, C |-> <<[k \in Dom(W) |-> k - 1]>>]
D == RefDim[el]
IntU(W, p) == Integral(Mesh1(W), IF el \in Simplices THEN 3 ELSE 5, LAMBDA c, x : Ev(p, x))
\* moments on the reference cell (of side 1)
Unit == [k \in Dom(V) |-> [i \in 1..D |-> Ref(el)[k][i] \div 2]]
Mono == <<u[1]>>
Closed == LET e == SubSeq(u[1], 2, D + 1) IN
  IF el \in Simplices THEN FoldSeq(LAMBDA a, acc : (FacP(a) * acc) % P, (u[1][1] * Inv(FacP(SumSeq(e) + D))) % P, e)
  ELSE FoldSeq(LAMBDA a, acc : (Inv(a + 1) * acc) % P, u[1][1] % P, e)
MomentsRight == step = 0 => IntU(Unit, Mono) = Closed
\* all rules of at least the degree agree
RulesAgree == (el = "hex8" => step = 0) => \A d \in {d \in (IF el \in Simplices THEN {1, 3, 5} ELSE {5}) : d >= Deg(u)} : Integral(Mesh1(V), d, LAMBDA c, x : Ev(u, x)) = Integral(Mesh1(V), 7, LAMBDA c, x : Ev(u, x))
\* cutting the edge between the first two corners in the middle (coordinates doubled and substituted)
Half(p) == [t \in Dom(p) |-> [p[t] EXCEPT ![1] = (@ * Inv(PowP(2, SumSeq(SubSeq(p[t], 2, D + 1))))) % P]]
Twice == [k \in Dom(V) |-> [i \in 1..D |-> 2 * V[k][i]]]
Mid(a, b) == [i \in 1..D |-> (Twice[a][i] + Twice[b][i]) \div 2]
Pairs == IF el = "quad4" THEN {<<1, 2>>, <<4, 3>>} ELSE {<<1, 2>>, <<4, 3>>, <<5, 6>>, <<8, 7>>}
Pieces == IF el \in Simplices THEN <<[Twice EXCEPT ![1] = Mid(1, 2)], [Twice EXCEPT ![2] = Mid(1, 2)]>>
          ELSE LET m(k) == LET q == CHOOSE q \in Pairs : k \in {q[1], q[2]} IN Mid(q[1], q[2])
                   first(k) == \E q \in Pairs : q[1] = k
               IN <<[k \in Dom(V) |-> IF first(k) THEN m(k) ELSE Twice[k]], [k \in Dom(V) |-> IF first(k) THEN Twice[k] ELSE m(k)]>>
Additive == LET h == Half(u) IN (IntU(Pieces[1], h) + IntU(Pieces[2], h)) % P = IntU(Twice, h)
\* Gauss on triangles and quadrilaterals: the integral of d u / d x_i is the flux through the edges (with 1D rule, edge by edge)
EdgeFlux(a, b, i) ==
  LET r == SimplexRules[1][3]  n == IF i = 1 THEN (b[2] - a[2]) % P ELSE (a[1] - b[1]) % P IN
  (n * SumP([k \in Dom(r) |-> (r[k].w * Ev(u, [j \in 1..2 |-> ((a[j] % P) + ((b[j] - a[j]) % P) * r[k].p[1]) % P])) % P])) % P
Gauss == D = 2 => \A i \in 1..2 :
  LET f == SumP([k \in Dom(V) |-> EdgeFlux(V[k], V[(k % Len(V)) + 1], i)]) IN
  IntU(V, Deriv(u, i)) = IF DetI(el, V) < 0 THEN (P - f) % P ELSE f
\* another listing of the cell: simplices in any order, boxes turned or mirrored
Listings == IF el \in Simplices THEN {<<2, 1>> \o [k \in 1..(D - 1) |-> k + 2], [k \in 1..(D + 1) |-> (k % (D + 1)) + 1]}
            ELSE IF D = 2 THEN {<<2, 3, 4, 1>>, <<2, 1, 4, 3>>} ELSE {<<2, 3, 4, 1, 6, 7, 8, 5>>, <<5, 6, 7, 8, 1, 2, 3, 4>>}
ListingFree == \A q \in Listings : IntU([k \in Dom(V) |-> V[q[k]]], u) = IntU(V, u)
(* operators *)
Lap == [kind |-> "linear", A |-> [i \in 1..D |-> [j \in 1..D |-> IF i = j THEN 1 ELSE 0]], N |-> <<<<1>>>>]
Quartic == [kind |-> "quartic"]
x0 == [i \in 1..D |-> (3 * i + step) % P]
gU == EvG(Grads(<<u>>, D), x0)
gV == [i \in 1..1 |-> [k \in 1..D |-> (2 * k + 1) % P]]
Plus(a, b, t) == [i \in Dom(a) |-> [k \in Dom(a[i]) |-> (a[i][k] + t * b[i][k]) % P]]
\* quadratic energy: E(u + v) = E(u) + E'(u) v + E''(u)(v, v) / 2; quartic: four values determine the first two derivatives (central differences exact up to degree 4)
Taylor ==
  /\ Energy4(Lap, Plus(gU, gV, 1)) = (Energy4(Lap, gU) + 4 * First(Lap, gU, gV) + 2 * Second(Lap, gU, gV, gV)) % P
  /\ LET e(t) == Energy4(Quartic, Plus(gU, gV, (t + P) % P)) IN
     /\ (8 * (e(1) + P - e(-1)) + e(-2) + P - e(2)) % P = (48 * First(Quartic, gU, gV)) % P
     /\ (16 * (e(1) + e(-1)) + 40 * P - 30 * e(0) - e(2) - e(-2)) % P = (48 * Second(Quartic, gU, gV, gV)) % P
SymKill ==
  /\ Second(Lap, gU, gU, gV) = Second(Lap, gU, gV, gU) /\ Second(Quartic, gU, gU, gV) = Second(Quartic, gU, gV, gU)
  /\ LET z == [i \in 1..1 |-> [k \in 1..D |-> 0]] IN First(Lap, gU, z) = 0 /\ First(Lap, z, gV) = 0
EmitInv == Emit => PrintT("CASE " \o ToJson([el |-> el, V |-> V, u |-> u]))
=============================================================================
