---------------------------------- MODULE Sdf ----------------------------------
(* Regular grids around shapes given by signed distance functions, and the meshes    *)
(* made from them (C31). A shape is <<"c", centre, radius>>, <<"b", lo, hi>> or       *)
(* <<"u", S, T>> with integer coordinates; observed coordinates and distances are in  *)
(* units of 1/1000, the cell size in units of 1/4.                                    *)
EXTENDS Util, TLC
K == 1000
RECURSIVE SqrtB(_, _, _)
SqrtB(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN SqrtB(x, m, hi) ELSE SqrtB(x, lo, m)
Sqrt(x) == SqrtB(x, 0, 46340)
Norm(a, b) == Sqrt(a * a + b * b)
\* the signed distance at p, up to 2 units
RECURSIVE Dist(_, _)
Dist(S, p) ==
  IF S[1] = "c" THEN Norm(p[1] - K * S[2][1], p[2] - K * S[2][2]) - K * S[3]
  ELSE IF S[1] = "u" THEN Min2(Dist(S[2], p), Dist(S[3], p))
  ELSE LET d == [i \in 1..2 |-> Max2(K * S[2][i] - p[i], p[i] - K * S[3][i])] IN
       IF d[1] <= 0 /\ d[2] <= 0 THEN Max2(d[1], d[2]) ELSE Norm(Max2(d[1], 0), Max2(d[2], 0))
\* membership, exactly, for points in units of 1/1000
RECURSIVE Has(_, _)
Has(S, p) == IF S[1] = "c" THEN (p[1] - K * S[2][1]) * (p[1] - K * S[2][1]) + (p[2] - K * S[2][2]) * (p[2] - K * S[2][2]) <= K * K * S[3] * S[3]
             ELSE IF S[1] = "u" THEN Has(S[2], p) \/ Has(S[3], p)
             ELSE \A i \in 1..2 : K * S[2][i] <= p[i] /\ p[i] <= K * S[3][i]
\* the tight bounding box
RECURSIVE Tight(_)
Tight(S) == IF S[1] = "c" THEN [lo |-> [i \in 1..2 |-> S[2][i] - S[3]], hi |-> [i \in 1..2 |-> S[2][i] + S[3]]]
            ELSE IF S[1] = "b" THEN [lo |-> S[2], hi |-> S[3]]
            ELSE LET a == Tight(S[2])  b == Tight(S[3]) IN [lo |-> [i \in 1..2 |-> Min2(a.lo[i], b.lo[i])], hi |-> [i \in 1..2 |-> Max2(a.hi[i], b.hi[i])]]
RECURSIVE MaxRad(_)
MaxRad(S) == IF S[1] = "c" THEN S[3] ELSE IF S[1] = "b" THEN 0 ELSE Max2(MaxRad(S[2]), MaxRad(S[3]))
\* a box that holds the shape, up to five percent of a radius too large
BoxOk(S, lo, hi) ==
  LET t == Tight(S)  e == 50 * MaxRad(S) IN
  \A i \in 1..2 : /\ lo[i] <= K * t.lo[i] /\ K * t.lo[i] - e <= lo[i]
                  /\ hi[i] >= K * t.hi[i] /\ K * t.hi[i] + e >= hi[i]
Inside(S, p) == Dist(S, p) <= 0 - 3       \* surely
Outside(S, p) == Dist(S, p) >= 3

(* ----------------------------------- grids ---------------------------------- *)
Xs(M, i) == {M.V[k][i] : k \in Dom(M.V)}
Lo(M) == [i \in 1..2 |-> Min(Xs(M, i))]
Hi(M) == [i \in 1..2 |-> Max(Xs(M, i))]
\* the numbers of cells per direction: nx ny cells, (nx + 1)(ny + 1) vertices, square cells
IsSize(M, n) ==
  /\ n[1] * n[2] = Len(M.C) /\ (n[1] + 1) * (n[2] + 1) = Len(M.V)
  /\ LET lo == TLCEval(Lo(M))  hi == TLCEval(Hi(M)) IN Abs((hi[1] - lo[1]) * n[2] - (hi[2] - lo[2]) * n[1]) <= 2 * (n[1] + n[2])
Sizes(M) == {n \in {<<i, Len(M.C) \div i>> : i \in {i \in Dom(M.C) : Len(M.C) % i = 0}} : IsSize(M, n)}
\* the lattice position of a vertex
LatOf(lo, hi, n, v) == [i \in 1..2 |-> ((v[i] - lo[i]) * n[i] + (hi[i] - lo[i]) \div 2) \div (hi[i] - lo[i])]
OnLat(lo, hi, n, v) == LET q == LatOf(lo, hi, n, v) IN \A i \in 1..2 : Abs((v[i] - lo[i]) * n[i] - q[i] * (hi[i] - lo[i])) <= 2 * n[i]
Square(q, c) == \E s \in 0..3 : LET at(k) == q[c[((k + s) % 4) + 1] + 1] IN
  /\ at(1) = <<at(0)[1] + 1, at(0)[2]>> /\ at(2) = <<at(0)[1] + 1, at(0)[2] + 1>> /\ at(3) = <<at(0)[1], at(0)[2] + 1>>
Corner(q, c) == CHOOSE a \in {q[c[k] + 1] : k \in 1..4} : \A k \in 1..4 : a[1] <= q[c[k] + 1][1] /\ a[2] <= q[c[k] + 1][2]
\* every lattice point and every lattice cell exactly once, counter-clockwise
IsGrid(M, n) ==
  LET lo == TLCEval(Lo(M))  hi == TLCEval(Hi(M))  q == TLCEval([k \in Dom(M.V) |-> LatOf(lo, hi, n, M.V[k])]) IN
  /\ \A k \in Dom(M.V) : OnLat(lo, hi, n, M.V[k])
  /\ {q[k] : k \in Dom(q)} = (0..n[1]) \X (0..n[2])
  /\ \A k \in Dom(M.C) : Square(q, M.C[k])
  /\ {Corner(q, M.C[k]) : k \in Dom(M.C)} = (0..(n[1] - 1)) \X (0..(n[2] - 1))
\* around the box (units 1/1000) enlarged by one percent of its extents on every side, centred, cells of size at most h
\* (units 1/4), and not a whole row or column more than it takes
FitsGrid(M, n, blo, bhi, h) ==
  LET lo == TLCEval(Lo(M))  hi == TLCEval(Hi(M)) IN
  \A i \in 1..2 : LET e == bhi[i] - blo[i]  w == hi[i] - lo[i] IN
    /\ w <= 250 * h * n[i] + 2
    /\ lo[i] < blo[i] /\ hi[i] > bhi[i] /\ 100 * w >= 102 * e - 400
    /\ Abs(lo[i] + hi[i] - blo[i] - bhi[i]) <= 4
    /\ (100 * w - 102 * e) * n[i] <= 100 * w + 400 * n[i]
GridOk(M, blo, bhi, h) == \E n \in Sizes(M) : IsGrid(M, n) /\ FitsGrid(M, n, blo, bhi, h)

(* ------------------------------ parts of a grid ------------------------------ *)
Pts(M, c) == [k \in Dom(c) |-> M.V[c[k] + 1]]
Cells(M) == {Pts(M, M.C[k]) : k \in Dom(M.C)}
Tidy(M) == /\ Cardinality(ToSet(M.V)) = Len(M.V)                     \* shared vertices stay shared
           /\ UNION {ToSet(M.C[k]) : k \in Dom(M.C)} = 0..(Len(M.V) - 1)
\* ex = 1: vertices and boundary are such that the arithmetic is exact, also for vertices on the boundary
MustKeep(S, ps, ex) == \E k \in Dom(ps) : IF ex = 1 THEN Has(S, ps[k]) ELSE Inside(S, ps[k])
MustDrop(S, ps, ex) == \A k \in Dom(ps) : IF ex = 1 THEN ~Has(S, ps[k]) ELSE Outside(S, ps[k])
\* a part of the grid G: exactly the cells with a corner that is not outside
IsKept(S, G, M, ex) ==
  LET all == TLCEval(Cells(G))  some == TLCEval(Cells(M)) IN
  /\ Tidy(M) /\ Len(M.C) = Cardinality(some) /\ some \subseteq all
  /\ \A ps \in all : IF ps \in some THEN ~MustDrop(S, ps, ex) ELSE ~MustKeep(S, ps, ex)

(* --------------------------- fitting to the boundary ------------------------- *)
\* what lies outside goes to the closest point of the shape
MovedD(S, d, v, w) ==
  IF d <= 0 - 3 THEN w = v
  ELSE IF d < 3 THEN Norm(v[1] - w[1], v[2] - w[2]) <= 8
  ELSE /\ Abs(v[1] - w[1]) <= d + 8 /\ Abs(v[2] - w[2]) <= d + 8
       /\ Abs(Norm(v[1] - w[1], v[2] - w[2]) - d) <= 8 /\ Abs(Dist(S, w)) <= 8
Moved(S, v, w) == MovedD(S, Dist(S, v), v, w)
IsFitted(S, M, R) == R.C = M.C /\ Len(R.V) = Len(M.V) /\ \A k \in Dom(M.V) : Moved(S, M.V[k], R.V[k])
\* triangles: every square is cut into two along a diagonal; those that are not outside are kept and fitted
Halves(c) == {{<<c[1], c[2], c[3]>>, <<c[1], c[3], c[4]>>}, {<<c[1], c[2], c[4]>>, <<c[2], c[3], c[4]>>}}
IsTriangulated(S, M, R, ex) ==
  LET \* where a vertex of the result may have come from (0-based)
      far == TLCEval([j \in Dom(M.V) |-> Dist(S, M.V[j])])
      fits(j, k) == MovedD(S, far[j + 1], M.V[j + 1], R.V[k + 1])
      from == TLCEval([k \in 0..(Len(R.V) - 1) |-> {j \in 0..(Len(M.V) - 1) : fits(j, k)}])
      \* a triangle of the result made from a given triangle of the grid, up to where it starts
      made(t, r) == \E s \in 0..2 : \A k \in 1..3 : t[k] \in from[r[((k + s - 1) % 3) + 1]]
      in == TLCEval([j \in Dom(M.V) |-> ex = 1 /\ Has(S, M.V[j])])
      sure(t) == \E k \in 1..3 : in[t[k] + 1] \/ far[t[k] + 1] <= 0 - 3
      never(t) == \A k \in 1..3 : IF ex = 1 THEN ~in[t[k] + 1] ELSE far[t[k] + 1] >= 3
      rows == Dom(R.C)
  IN /\ UNION {ToSet(R.C[k]) : k \in Dom(R.C)} = 0..(Len(R.V) - 1)
     \* every cell is cut one way or the other: each half that must stay is there, no half that must go is
     /\ \A c \in Dom(M.C) : \E H \in Halves(M.C[c]) : \A t \in H : sure(t) => \E r \in rows : made(t, R.C[r])
     /\ \A r \in rows : \E c \in Dom(M.C) : \E H \in Halves(M.C[c]) : \E t \in H : ~never(t) /\ made(t, R.C[r])
     /\ Len(R.C) <= 2 * Len(M.C)
     /\ Cardinality({ToSet(R.C[a]) : a \in rows}) = Len(R.C)
=============================================================================
