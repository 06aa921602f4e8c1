------------------------------ MODULE Spatial -------------------------------
(* Closest points on simplices with integer vertices, exactly: a point is      *)
(* [n, d] with numerators n and denominator d > 0, a squared distance [n, d].   *)
EXTENDS Mesh
Dot(a, b) == SumSeq([i \in Dom(a) |-> a[i] * b[i]])
RLe(x, y) == x.n * y.d <= y.n * x.d
RLt(x, y) == x.n * y.d < y.n * x.d
Min2By(c, e) == IF RLe(c.dist, e.dist) THEN c ELSE e
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* the segment from a to b; a single point if they coincide
OnSeg(p, a, b) ==
  LET e == VSub(b, a)  w == VSub(p, a)  d == Dot(e, e) IN
  IF d = 0 THEN [pt |-> [n |-> a, d |-> 1], dist |-> [n |-> Dot(w, w), d |-> 1]]
  ELSE LET r == Dot(w, e)  t == Clamp(r, 0, d)
       IN [pt |-> [n |-> VAdd(VScale(d, a), VScale(t, e)), d |-> d], dist |-> [n |-> d * Dot(w, w) - 2 * t * r + t * t, d |-> d]]
OnEdges(p, a, b, c) == Min2By(Min2By(OnSeg(p, a, b), OnSeg(p, b, c)), OnSeg(p, c, a))
\* in the plane: inside iff on the same side of all edges
OnTri2(p, a, b, c) ==
  LET A == Tri2(a, b, c)  s == IF A > 0 THEN 1 ELSE -1 IN
  IF A # 0 /\ s * Tri2(a, b, p) >= 0 /\ s * Tri2(b, c, p) >= 0 /\ s * Tri2(c, a, p) >= 0
  THEN [pt |-> [n |-> p, d |-> 1], dist |-> [n |-> 0, d |-> 1]] ELSE OnEdges(p, a, b, c)
\* in space: the foot of the perpendicular if it is in the triangle
OnTri3(p, a, b, c) ==
  LET e == VSub(b, a)  f == VSub(c, a)  w == VSub(p, a)
      g11 == Dot(e, e)  g12 == Dot(e, f)  g22 == Dot(f, f)  D == g11 * g22 - g12 * g12
      r1 == Dot(e, w)  r2 == Dot(f, w)  s == r1 * g22 - r2 * g12  t == r2 * g11 - r1 * g12
  IN IF D > 0 /\ s >= 0 /\ t >= 0 /\ s + t <= D
     THEN [pt |-> [n |-> VAdd(VScale(D, a), VAdd(VScale(s, e), VScale(t, f))), d |-> D],
           dist |-> [n |-> D * Dot(w, w) - s * r1 - t * r2, d |-> D]]
     ELSE OnEdges(p, a, b, c)
OnTet(p, a, b, c, d) ==
  LET V == Tet6(a, b, c, d)  s == IF V > 0 THEN 1 ELSE -1 IN
  IF V # 0 /\ s * Tet6(p, b, c, d) >= 0 /\ s * Tet6(a, p, c, d) >= 0 /\ s * Tet6(a, b, p, d) >= 0 /\ s * Tet6(a, b, c, p) >= 0
  THEN [pt |-> [n |-> p, d |-> 1], dist |-> [n |-> 0, d |-> 1]]
  ELSE Min2By(Min2By(OnTri3(p, a, b, c), OnTri3(p, a, b, d)), Min2By(OnTri3(p, a, c, d), OnTri3(p, b, c, d)))
Closest(ct, vs, p) ==
  CASE ct = "tri3" -> OnTri2(p, vs[1], vs[2], vs[3])
    [] ct = "tri3s" -> OnTri3(p, vs[1], vs[2], vs[3])
    [] ct = "tet4" -> OnTet(p, vs[1], vs[2], vs[3], vs[4])
CellVerts(M, k) == [i \in Dom(M.C[k]) |-> P(M, M.C[k][i])]
ClosestIn(M, k, p) == Closest(M.ct, CellVerts(M, k), p)
\* (0-based) elements at the smallest distance
Nearest(M, p) ==
  LET c == TLCEval([k \in Dom(M.C) |-> ClosestIn(M, k, p).dist]) IN
  {k - 1 : k \in {k \in Dom(M.C) : \A j \in Dom(M.C) : RLe(c[k], c[j])}}
(* ---------------------- reference coordinates ----------------------------- *)
\* on the grid 1/S: the image of the reference point times 2S, and whether the point is in the reference element
S == 10000
MapRef(vs, xi) ==
  FoldFunction(VAdd, VScale(2 * S, vs[1]), [i \in Dom(xi) |-> VScale(xi[i] + S, VSub(vs[i + 1], vs[1]))])
InRef(xi) == (\A i \in Dom(xi) : xi[i] >= -S - 1) /\ SumSeq([i \in Dom(xi) |-> xi[i] + S]) <= 2 * S + 2
\* rounding to the grid moves the image by at most half of the sum of the edges
Slack(vs) == 3 + SumSeq([i \in 1..(Len(vs) - 1) |-> SumSeq([j \in Dom(vs[1]) |-> Abs(vs[i + 1][j] - vs[1][j])])])
MapsTo(vs, xi, pt) ==
  LET x == MapRef(vs, xi) IN \A j \in Dom(x) : Abs(x[j] * pt.d - 2 * S * pt.n[j]) <= Slack(vs) * pt.d
\* an answer for one element
ClosestOk(M, k, p, xi) == InRef(xi) /\ MapsTo(CellVerts(M, k), xi, ClosestIn(M, k, p).pt)
\* an answer of the index: nothing, or an element and a reference point
AnswerOk(M, p, none, k, xi) ==
  IF Len(M.C) = 0 THEN none ELSE ~none /\ k \in Nearest(M, p) /\ ClosestOk(M, k + 1, p, xi)
(* --------------------------- bounding boxes -------------------------------- *)
Bounds(vs) == [lo |-> [j \in Dom(vs[1]) |-> Min({vs[i][j] : i \in Dom(vs)})], hi |-> [j \in Dom(vs[1]) |-> Max({vs[i][j] : i \in Dom(vs)})]]
Near2(b, p) == SumSeq([j \in Dom(p) |-> LET g == Clamp(p[j], b.lo[j], b.hi[j]) - p[j] IN g * g])
Far2(b, p) == SumSeq([j \in Dom(p) |-> LET g == Max2(Abs(b.lo[j] - p[j]), Abs(b.hi[j] - p[j])) IN g * g])
=============================================================================
