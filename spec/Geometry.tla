------------------------------- MODULE Geometry --------------------------------
(* Exact answers to geometric queries on integer input. A rational point is        *)
(* [n, d]: numerators n over the common denominator d > 0. Observed numbers are     *)
(* fixed-point: r stands for r / 10^5 (squares: r / 10^3).                          *)
EXTENDS Spatial
RECURSIVE GcdG(_, _)
GcdG(a, b) == IF b = 0 THEN a ELSE GcdG(b, a % b)
RedPt(q) == LET g == FoldSeq(LAMBDA x, acc : GcdG(Max2(Abs(x), acc), Min2(Abs(x), acc)), Abs(q.d), q.n)
                s == IF q.d < 0 THEN 0 - g ELSE g
            IN [n |-> [i \in Dom(q.n) |-> (q.n[i] \div Abs(g)) * (s \div Abs(s))], d |-> Abs(q.d) \div Abs(g)]
IntPt(p) == [n |-> p, d |-> 1]
F5 == 100000
F3 == 1000
\* r is the fixed-point image of x / y (y > 0) with unit 1 / f
NearQ(r, x, y, f, tol) == LET e == r * y - x * f IN e <= tol * y /\ 0 - e <= tol * y
NearPt(r, q) == Len(r) = Len(q.n) /\ \A i \in Dom(r) : NearQ(r[i], q.n[i], q.d, F5, 2)
NearD2(r, x) == NearQ(r, x.n, x.d, F3, 2)
Zero(D) == [i \in 1..D |-> 0]
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN 0 - 1 ELSE 0
\* normals whose normalisation is exact
Crisp(N) == Cardinality({i \in Dom(N) : N[i] # 0}) = 1
NextI(s, i) == s[(i % Len(s)) + 1]
CrossV(a, b) == << a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1] >>

(* ---------------------------------- boxes ----------------------------------- *)
BoxOf(PS) == [lo |-> [i \in Dom(PS[1]) |-> Min({PS[k][i] : k \in Dom(PS)})], hi |-> [i \in Dom(PS[1]) |-> Max({PS[k][i] : k \in Dom(PS)})]]
BoxHas(B, p) == \A i \in Dom(p) : B.lo[i] <= p[i] /\ p[i] <= B.hi[i]
BoxMeet(B, C) == \A i \in Dom(B.lo) : B.lo[i] <= C.hi[i] /\ C.lo[i] <= B.hi[i]
BoxJoin(B, C) == [lo |-> [i \in Dom(B.lo) |-> Min2(B.lo[i], C.lo[i])], hi |-> [i \in Dom(B.lo) |-> Max2(B.hi[i], C.hi[i])]]
BoxNear(B, p) == [i \in Dom(p) |-> Clamp(p[i], B.lo[i], B.hi[i])]
D2(p, q) == Dot(VSub(p, q), VSub(p, q))
BoxFar2(B, p) == SumSeq([i \in Dom(p) |-> LET a == Max2(Abs(p[i] - B.lo[i]), Abs(p[i] - B.hi[i])) IN a * a])
BoxCorners(B) == {[i \in Dom(B.lo) |-> IF i \in T THEN B.hi[i] ELSE B.lo[i]] : T \in SUBSET Dom(B.lo)}

(* --------------------------------- segments --------------------------------- *)
SegParam(p, a, b) == LET e == VSub(b, a) IN [n |-> Dot(VSub(p, a), e), d |-> Dot(e, e)]     \* of the projection on the line
\* crossing of a + s e and c + t f: s = x / w, t = y / w with w > 0; w = 0 if parallel
LineCross(a, e, c, f) ==
  LET w == Cross2(e, f)  r == VSub(c, a)  k == IF w < 0 THEN 0 - 1 ELSE 1 IN [w |-> k * w, x |-> k * Cross2(r, f), y |-> k * Cross2(r, e)]
Orient(a, b, c) == Sign(Tri2(a, b, c))
OnSegment(p, a, b) == Tri2(a, b, p) = 0 /\ Dot(VSub(p, a), VSub(p, b)) <= 0
SegMeet(a, b, c, d) ==
  \/ OnSegment(a, c, d) \/ OnSegment(b, c, d) \/ OnSegment(c, a, b) \/ OnSegment(d, a, b)
  \/ Orient(a, b, c) * Orient(a, b, d) < 0 /\ Orient(c, d, a) * Orient(c, d, b) < 0
ProperCross(a, b, c, d) == Orient(a, b, c) * Orient(a, b, d) < 0 /\ Orient(c, d, a) * Orient(c, d, b) < 0

(* ------------------------- clipping of convex polygons ----------------------- *)
\* the half-space N . (y - x) <= 0
Side(N, x, q) == Dot(N, VSub(q.n, VScale(q.d, x)))
Cut(N, x, a, b) == LET sa == Side(N, x, a)  sb == Side(N, x, b)  w == sa * b.d - sb * a.d
                   IN RedPt([n |-> VSub(VScale(sa, b.n), VScale(sb, a.n)), d |-> w])
ClipPoly(N, x, PS) ==
  FoldSeq(LAMBDA i, acc : LET a == PS[i]  b == NextI(PS, i)  sa == Side(N, x, a)  sb == Side(N, x, b) IN
            acc \o (IF sa <= 0 THEN <<a>> ELSE <<>>) \o (IF sa * sb < 0 THEN <<Cut(N, x, a, b)>> ELSE <<>>),
          <<>>, [i \in Dom(PS) |-> i])
\* a proper two-dimensional remainder (in the plane)
CrossQ(a, b, c) == Cross2(VSub(VScale(a.d, b.n), VScale(b.d, a.n)), VSub(VScale(a.d, c.n), VScale(c.d, a.n)))
FatPoly(PS) == Len(PS) >= 3 /\ \E i \in 2..(Len(PS) - 1) : CrossQ(PS[1], PS[i], PS[i + 1]) > 0
\* the same closed sequence of points, up to where it starts and repeated points
Drop(s, same(_, _)) == LET t == FoldSeq(LAMBDA x, acc : IF acc # <<>> /\ same(acc[Len(acc)], x) THEN acc ELSE Append(acc, x), <<>>, s)
                       IN IF Len(t) > 1 /\ same(t[1], t[Len(t)]) THEN SubSeq(t, 1, Len(t) - 1) ELSE t
CloseF(a, b) == \A i \in Dom(a) : Abs(a[i] - b[i]) <= 4
EqPt(a, b) == a = b
ShiftSame(R, PS) ==
  LET r == Drop(R, CloseF)  q == Drop(PS, EqPt) IN
  Len(r) = Len(q) /\ (q = <<>> \/ \E k \in Dom(q) : \A i \in Dom(q) : NearPt(r[((i + k - 1) % Len(q)) + 1], q[i]))
SubPts(R, PS) == \A k \in Dom(R) : \E i \in Dom(PS) : NearPt(R[k], PS[i])
Fat(PS) == Len(Drop(PS, EqPt)) >= 3
\* edges of a counter-clockwise polygon as half-planes
EdgeNormal(a, b) == <<b[2] - a[2], a[1] - b[1]>>
PolySides(V) == LET ix == SelectSeq([i \in Dom(V) |-> i], LAMBDA i : V[i] # NextI(V, i)) IN [k \in Dom(ix) |-> [N |-> EdgeNormal(V[ix[k]], NextI(V, ix[k])), x |-> V[ix[k]]]]
ClipAll(PS, hs) == FoldSeq(LAMBDA i, acc : ClipPoly(hs[i].N, hs[i].x, acc), PS, [i \in Dom(hs) |-> i])
\* segments are clipped like polygons with two corners
SegClip(N, x, PS) ==
  LET a == PS[1]  b == PS[2]  sa == Side(N, x, a)  sb == Side(N, x, b) IN
  IF sa <= 0 /\ sb <= 0 THEN PS ELSE IF sa > 0 /\ sb > 0 THEN <<>>
  ELSE IF sa > 0 /\ sb = 0 THEN <<b, b>> ELSE IF sa = 0 /\ sb > 0 THEN <<a, a>>
  ELSE IF sa > 0 THEN <<Cut(N, x, a, b), b>> ELSE <<a, Cut(N, x, a, b)>>

\* What an implementation with rounding owes for one cut: the boundary of a half-plane may run exactly
\* through a corner; that is decided without rounding only for axis-aligned normals and corners that are given
\* (`safe') rather than computed. mode: "same" the exact answer, "sub" points of it or nothing, "any" no claim.
Start(V) == [ps |-> [i \in Dom(V) |-> IntPt(V[i])], safe |-> {IntPt(V[i]) : i \in Dom(V)}, lost |-> FALSE, mode |-> "same"]
OnCut(N, x, PS) == {i \in Dom(PS) : Side(N, x, PS[i]) = 0}
Decided(st, N, x) == LET zs == OnCut(N, x, st.ps) IN zs = {} \/ (Crisp(N) /\ \A i \in zs : st.ps[i] \in st.safe)
AlongEdge(zs, n) == \E i \in zs : (i % n) + 1 \in zs
StepCut(st, N, x) ==
  LET res == ClipPoly(N, x, st.ps)  zs == OnCut(N, x, st.ps)  ex == Decided(st, N, x)  par == AlongEdge(zs, Len(st.ps)) IN
  [ps |-> res, safe |-> st.safe \ {st.ps[i] : i \in zs},
   mode |-> IF st.lost \/ (par /\ ~ex) THEN "any" ELSE IF ex \/ Fat(res) THEN "same" ELSE "sub",
   lost |-> st.lost \/ ~ex \/ (res # <<>> /\ ~Fat(res))]
StepSeg(st, N, x) ==
  IF st.ps = <<>> THEN st ELSE
  LET res == SegClip(N, x, st.ps)  zs == OnCut(N, x, st.ps)  ex == Decided(st, N, x) IN
  [ps |-> res, safe |-> st.safe \ {st.ps[i] : i \in zs},
   mode |-> IF st.lost \/ (Cardinality(zs) = 2 /\ ~ex) THEN "any" ELSE IF ex \/ res = st.ps THEN "same" ELSE "sub",
   lost |-> st.lost \/ ~ex]
Judge(st, R) == CASE st.mode = "any" -> TRUE [] st.mode = "same" -> ShiftSame(R, st.ps) [] OTHER -> SubPts(R, st.ps)
\* segments keep their direction
JudgeSeg(st, R) == CASE st.mode = "any" -> TRUE
                     [] st.mode = "same" -> Len(R) = Len(st.ps) /\ \A i \in Dom(R) : NearPt(R[i], st.ps[i])
                     [] OTHER -> SubPts(R, st.ps)
CutAll(st, hs, step(_, _, _)) == FoldSeq(LAMBDA i, acc : step(acc, hs[i].N, hs[i].x), st, [i \in Dom(hs) |-> i])

(* ------------------------------ simple polygons ------------------------------ *)
PolyArea2(V) == SumSeq([i \in Dom(V) |-> Cross2(V[i], NextI(V, i))])
OnBoundary(V, p) == \E i \in Dom(V) : OnSegment(p, V[i], NextI(V, i))
\* crossing number for a point that is not on the boundary
InsidePoly(V, p) ==
  Cardinality({i \in Dom(V) : LET a == V[i]  b == NextI(V, i) IN
    (a[2] > p[2]) # (b[2] > p[2]) /\ (IF b[2] > a[2] THEN Tri2(a, b, p) > 0 ELSE Tri2(a, b, p) < 0)}) % 2 = 1
EdgeDist(V, p, i) == OnSeg(p, V[i], NextI(V, i))
MinDist(ds) == FoldSeq(LAMBDA x, acc : IF RLe(x, acc) THEN x ELSE acc, ds[1], ds)
PolyDist(V, p) == MinDist([i \in Dom(V) |-> EdgeDist(V, p, i).dist])
RSame(x, y) == x.n * y.d = y.n * x.d
InOut(V, p) == IF OnBoundary(V, p) THEN 0 ELSE IF InsidePoly(V, p) THEN 0 - 1 ELSE 1
SimplePoly(V) == \A i, j \in Dom(V) : LET a == V[i]  b == NextI(V, i)  c == V[j]  d == NextI(V, j) IN
  /\ a # b
  /\ (i # j /\ NextI([k \in Dom(V) |-> k], i) # j /\ NextI([k \in Dom(V) |-> k], j) # i) => ~SegMeet(a, b, c, d)
  /\ (NextI([k \in Dom(V) |-> k], i) = j /\ Len(V) > 2) => ~(OnSegment(d, a, b) \/ OnSegment(a, c, d))
ConvexCCW(V) == Len(V) >= 3 /\ \A i \in Dom(V) : \A k \in Dom(V) : Tri2(V[i], NextI(V, i), V[k]) >= 0

(* ------------------------ polygons and bodies in space ----------------------- *)
\* twice the vector area
AreaV(V) == FoldSeq(LAMBDA i, acc : VAdd(acc, CrossV(VSub(V[i], V[1]), VSub(V[i + 1], V[1]))), Zero(3), [i \in 1..(Len(V) - 2) |-> i + 1])
\* a fan covers a planar convex polygon
OnFace(p, V) == FoldSeq(LAMBDA i, acc : Min2By(acc, OnTri3(p, V[1], V[i], V[i + 1])), OnTri3(p, V[1], V[2], V[3]), [i \in 1..(Len(V) - 2) |-> i + 1])
\* faces (0-based) of the bodies, oriented inwards
BodyFaces == [tet |-> << <<0,1,2>>, <<0,3,1>>, <<1,3,2>>, <<0,2,3>> >>,
              hex |-> << <<0,1,2,3>>, <<4,5,1,0>>, <<5,6,2,1>>, <<6,7,3,2>>, <<0,3,7,4>>, <<4,7,6,5>> >>]
FacePts(kind, V, f) == [i \in Dom(BodyFaces[kind][f]) |-> V[BodyFaces[kind][f][i] + 1]]
\* side of a point: > 0 strictly inside of the face's half-space
FaceSide(kind, V, f, p) == LET q == FacePts(kind, V, f) IN Dot(AreaV(q), VSub(p, q[1]))
BodyInOut(kind, V, p) == LET s == {Sign(FaceSide(kind, V, f, p)) : f \in Dom(BodyFaces[kind])} IN
  IF (0 - 1) \in s THEN 1 ELSE IF 0 \in s THEN 0 ELSE 0 - 1
BodyVol6(kind, V) == 0 - SumSeq([f \in Dom(BodyFaces[kind]) |-> LET q == FacePts(kind, V, f) IN Dot(AreaV(q), q[1])])
GoodBody(kind, V) == \A f \in Dom(BodyFaces[kind]) : LET q == FacePts(kind, V, f) IN
  AreaV(q) # Zero(3) /\ \A k \in Dom(V) : Dot(AreaV(q), VSub(V[k], q[1])) >= 0 /\ (V[k] \in ToSet(q) => Dot(AreaV(q), VSub(V[k], q[1])) = 0)
FaceDist(kind, V, f, p) == OnFace(p, FacePts(kind, V, f))
BodyDist(kind, V, p) == MinDist([f \in Dom(BodyFaces[kind]) |-> FaceDist(kind, V, f, p).dist])
\* surface triangles of a body, outwards
BodyTris(kind, V) == FoldSeq(LAMBDA f, acc : LET q == FacePts(kind, V, f) IN acc \o [i \in 1..(Len(q) - 2) |-> <<q[1], q[i + 2], q[i + 1]>>], <<>>, [f \in Dom(BodyFaces[kind]) |-> f])

(* ------------------------------------ balls ---------------------------------- *)
RECURSIVE ISqrtB(_, _, _)
ISqrtB(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN ISqrtB(x, m, hi) ELSE ISqrtB(x, lo, m)
ISqrt(x) == ISqrtB(x, 0, 46340)
\* a + t e on the circle around c with radius r: A t^2 + 2 B t + C = 0
DiskEq(a, e, c, r) == LET w == VSub(a, c) IN [A |-> Dot(e, e), B |-> Dot(e, w), C |-> Dot(w, w) - r * r]
Disc(q) == q.B * q.B - q.A * q.C
=============================================================================
