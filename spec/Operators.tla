----------------------------- MODULE Operators -------------------------------
(* What finite element operators assemble to, for polynomial data on cells with  *)
(* integer corners. Every quantity is an integral of a polynomial over cells, so  *)
(* it is a rational number; it is computed exactly, in the field of residues      *)
(* modulo a prime P, with rules that are exact for the degrees involved. (An      *)
(* observed number is multiplied by a common denominator, has to be an integer,   *)
(* and is compared as a residue.)                                                 *)
(*   polynomial: sequence of <<coefficient, exponent of x, ...>>                  *)
(*   mesh: [el, V (corners), C (corners of cells), m (measures, surfaces only)]   *)
EXTENDS Util, TLC
P == 46337
Mod(x) == x % P
RECURSIVE PowP(_, _)
PowP(b, n) == IF n = 0 THEN 1 ELSE LET h == PowP((b * b) % P, n \div 2) IN IF n % 2 = 1 THEN (h * b) % P ELSE h
Inv(a) == PowP(a % P, P - 2)
RECURSIVE FacP(_)
FacP(n) == IF n = 0 THEN 1 ELSE (n * FacP(n - 1)) % P
SumP(s) == FoldSeq(LAMBDA a, acc : (a + acc) % P, 0, s)
(* ------------------------------- cells ------------------------------------- *)
Simplices == {"seg2s", "tri3", "tri3s", "tri6", "tet4", "tet10", "tet20"}
RefDim == [seg2s |-> 1, tri3s |-> 2, tri3 |-> 2, tri6 |-> 2, quad4 |-> 2, quad9 |-> 2, tet4 |-> 3, tet10 |-> 3, tet20 |-> 3, hex8 |-> 3, hex20 |-> 3, hex27 |-> 3]
Surface == {"seg2s", "tri3s"}
Corner == [quad |-> <<<<0, 0>>, <<1, 0>>, <<1, 1>>, <<0, 1>>>>,
           hex |-> <<<<0, 0, 0>>, <<1, 0, 0>>, <<1, 1, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 1>>, <<1, 1, 1>>, <<0, 1, 1>>>>]
Corners(el) == IF RefDim[el] = 2 THEN Corner["quad"] ELSE Corner["hex"]
\* corners V of a cell, point p of the unit simplex or box (residues)
MapTo(el, V, p) ==
  IF el \in Simplices THEN [i \in Dom(V[1]) |-> SumP(<<V[1][i] % P>> \o [j \in Dom(p) |-> (((V[j + 1][i] - V[1][i]) % P) * p[j]) % P])]
  ELSE LET c == Corners(el)
           w == [a \in Dom(c) |-> FoldSeq(LAMBDA j, acc : (acc * (IF c[a][j] = 1 THEN p[j] ELSE (1 + P - p[j]) % P)) % P, 1, [j \in Dom(p) |-> j])]
       IN [i \in Dom(V[1]) |-> SumP([a \in Dom(c) |-> (w[a] * (V[a][i] % P)) % P])]
Col(el, V, p, j) ==
  IF el \in Simplices THEN [i \in Dom(V[1]) |-> (V[j + 1][i] - V[1][i]) % P]
  ELSE LET c == Corners(el)
           w == [a \in Dom(c) |-> FoldSeq(LAMBDA k, acc : IF k = j THEN (IF c[a][j] = 1 THEN acc ELSE (P - acc) % P)
                                                           ELSE (acc * (IF c[a][k] = 1 THEN p[k] ELSE (1 + P - p[k]) % P)) % P, 1, [k \in Dom(p) |-> k])]
       IN [i \in Dom(V[1]) |-> SumP([a \in Dom(c) |-> (w[a] * (V[a][i] % P)) % P])]
Det2(a, b) == (a[1] * b[2] - a[2] * b[1])
\* residues
DetP(A) ==
  CASE Len(A) = 1 -> A[1][1] % P
    [] Len(A) = 2 -> Det2(A[1], A[2]) % P
    [] Len(A) = 3 -> SumP(<<A[1][1] * ((A[2][2] * A[3][3] - A[2][3] * A[3][2]) % P),
                            A[1][2] * ((A[2][3] * A[3][1] - A[2][1] * A[3][3]) % P),
                            A[1][3] * ((A[2][1] * A[3][2] - A[2][2] * A[3][1]) % P)>>)
\* integers: orientation of a cell, from the edges at its first corner
Edge(V, a) == [i \in Dom(V[1]) |-> V[a][i] - V[1][i]]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
IDot(a, b) == SumSeq([i \in Dom(a) |-> a[i] * b[i]])
EdgesAt(el, V) == IF el \in Simplices THEN [j \in 1..RefDim[el] |-> Edge(V, j + 1)]
                  ELSE IF RefDim[el] = 2 THEN <<Edge(V, 2), Edge(V, 4)>> ELSE <<Edge(V, 2), Edge(V, 4), Edge(V, 5)>>
DetI(el, V) == LET A == EdgesAt(el, V) IN IF Len(A) = 2 THEN Det2(A[1], A[2]) ELSE IDot(A[1], Cross(A[2], A[3]))
\* declared measures of surface cells: length of the edge, length of the cross product
MeasureOk(el, V, m) == m > 0 /\ LET A == EdgesAt(el, V) IN IF el = "seg2s" THEN m * m = IDot(A[1], A[1]) ELSE LET c == Cross(A[1], A[2]) IN m * m = IDot(c, c)
Degenerate(el, V) == el \notin Surface /\ DetI(el, V) = 0
\* volume factor |det J| (residue); m is used on surfaces
Form(el, V, p, m) ==
  IF el \in Surface THEN m % P
  ELSE LET d == IF el \in Simplices THEN DetI(el, V) % P ELSE DetP([j \in 1..RefDim[el] |-> Col(el, V, p, j)])
       IN IF DetI(el, V) < 0 THEN (P - d) % P ELSE d
(* ------------------------------- integrals --------------------------------- *)
\* Grundmann-Moeller on the unit simplex, exact up to degree 2 s + 1
Comps(n, k) == {b \in [1..n -> 0..k] : SumSeq([i \in 1..n |-> b[i]]) = k}
GM(D, s) ==
  LET d == 2 * s + 1
      part(i) == LET den == Inv(d + D - 2 * i)
                     w0 == (((PowP(d + D - 2 * i, d) * Inv(FacP(i))) % P) * ((Inv(FacP(d + D - i)) * Inv(PowP(4, s))) % P)) % P
                     w == IF i % 2 = 1 THEN (P - w0) % P ELSE w0
                 IN [b \in Comps(D + 1, s - i) |-> [w |-> w, p |-> [j \in 1..D |-> ((2 * b[j] + 1) * den) % P]]]
      seqOf(f) == LET S == SetToSeq(DOMAIN f) IN [k \in Dom(S) |-> f[S[k]]]
  IN FlattenSeq([i \in 1..(s + 1) |-> seqOf(part(i - 1))])
\* closed Newton-Cotes on [0, 1]: five points (degree 5), seven points (degree 7)
NCw == [five |-> <<7, 32, 12, 32, 7>>, seven |-> <<41, 216, 27, 272, 27, 216, 41>>]
NCd == [five |-> 90, seven |-> 840]
NC(D, t) ==
  LET n == Len(NCw[t])  S == SetToSeq([1..D -> 1..n]) IN
  [k \in Dom(S) |-> [w |-> FoldSeq(LAMBDA a, acc : (((acc * NCw[t][a]) % P) * Inv(NCd[t])) % P, 1, [j \in 1..D |-> S[k][j]]),
                     p |-> [j \in 1..D |-> ((S[k][j] - 1) * Inv(n - 1)) % P]]]
SimplexRules == [D \in 1..3 |-> [s \in 0..3 |-> GM(D, s)]]
BoxRules == [D \in 2..3 |-> [five |-> NC(D, "five"), seven |-> NC(D, "seven")]]
\* a rule exact for degree d (total degree, or degree in every coordinate)
ExactRule(el, d) == IF el \in Simplices THEN SimplexRules[RefDim[el]][d \div 2] ELSE BoxRules[RefDim[el]][IF d <= 5 THEN "five" ELSE "seven"]
CellVerts(mesh, c) == [k \in Dom(mesh.C[c]) |-> mesh.V[mesh.C[c][k] + 1]]
\* all points of an exact rule on the cells of a mesh, with weights: [c, w, x]
Points(mesh, d) ==
  FlattenSeq([c \in Dom(mesh.C) |->
    LET V == CellVerts(mesh, c)  r == ExactRule(mesh.el, d)  m == IF mesh.el \in Surface THEN mesh.m[c] ELSE 0 IN
    [k \in Dom(r) |-> [c |-> c, w |-> (r[k].w * Form(mesh.el, V, r[k].p, m)) % P, x |-> MapTo(mesh.el, V, r[k].p)]]])
\* F(c, x): residue of the integrand in cell c at x
SumOn(pts, F(_, _)) == FoldSeq(LAMBDA q, acc : (acc + q.w * F(q.c, q.x)) % P, 0, pts)
Integral(mesh, d, F(_, _)) == SumOn(Points(mesh, d), F)
(* ------------------------------ polynomials -------------------------------- *)
Ev(p, x) == SumP([t \in Dom(p) |-> FoldSeq(LAMBDA j, acc : (acc * PowP(x[j], p[t][j + 1])) % P, p[t][1] % P, [j \in Dom(x) |-> j])])
Deriv(p, k) == [t \in Dom(p) |-> IF p[t][k + 1] = 0 THEN [p[t] EXCEPT ![1] = 0] ELSE [p[t] EXCEPT ![1] = @ * p[t][k + 1], ![k + 1] = @ - 1]]
Deg(p) == Max({0} \cup {SumSeq(SubSeq(p[t], 2, Len(p[t]))) : t \in {t \in Dom(p) : p[t][1] # 0}})
DegIn(p, k) == Max({0} \cup {p[t][k + 1] : t \in {t \in Dom(p) : p[t][1] # 0}})
Vals(u, x) == [i \in Dom(u) |-> Ev(u[i], x)]
Grads(u, D) == [i \in Dom(u) |-> [k \in 1..D |-> Deriv(u[i], k)]]
EvG(g, x) == [i \in Dom(g) |-> [k \in Dom(g[i]) |-> Ev(g[i][k], x)]]
DotP(a, b) == SumP([k \in Dom(a) |-> (a[k] * b[k]) % P])
\* coefficient of the cell times a polynomial
Coeff(data, c, x) == ((data.cell[c] % P) * Ev(data.poly, x)) % P
(* ------------------- operators: energy, first and second variation ---------- *)
\* kind "linear": density k/2 G : (A G N) with d x d matrix A, s x s matrix N;  "quartic" (scalar): |G|^4 / 4
\* first variation at u in direction v
First(op, gu, gv) ==
  IF op.kind = "quartic" THEN (DotP(gu[1], gu[1]) * DotP(gu[1], gv[1])) % P
  ELSE SumP(FlattenSeq([i \in Dom(gv) |-> [j \in Dom(gu) |->
         ((op.N[j][i] % P) * SumP(FlattenSeq([k \in Dom(gv[i]) |-> [m \in Dom(gu[j]) |-> ((((op.A[k][m] % P) * gv[i][k]) % P) * gu[j][m]) % P]]))) % P]]))
\* second variation at u in directions w (trial) and v (test)
Second(op, gu, gw, gv) ==
  IF op.kind = "quartic" THEN SumP(<<(DotP(gu[1], gu[1]) * DotP(gv[1], gw[1])) % P, (((2 * DotP(gu[1], gv[1])) % P) * DotP(gu[1], gw[1])) % P>>)
  ELSE First(op, gw, gv)
\* four times the energy density
Energy4(op, gu) == IF op.kind = "quartic" THEN (DotP(gu[1], gu[1]) * DotP(gu[1], gu[1])) % P ELSE (2 * First(op, gu, gu)) % P
=============================================================================
