----------------------------- MODULE MC_Geometry -------------------------------
(* A convex polygon is cut by half-planes, one after the other (the walk); in each  *)
(* state the algorithms of the specification meet their definitions: parts on both  *)
(* sides of a cut add up to the whole, what is kept lies in every half-plane used,  *)
(* convexity and orientation survive, crossings of segments from parameters and     *)
(* from orientations agree, inside by crossing number and by half-planes agree,     *)
(* boxes are optimal.                                                               *)
EXTENDS Geometry, Json, TLC
CONSTANTS G, MaxCuts, Emit
VARIABLES V, PS, hist
vars == <<V, PS, hist>>
Grid == (0..G) \X (0..G)
\* convex polygons with three or four corners, counter-clockwise, first corner smallest
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Strict(q) == \A i \in Dom(q) : \A k \in Dom(q) : q[k] = q[i] \/ q[k] = NextI(q, i) \/ Tri2(q[i], NextI(q, i), q[k]) > 0
Lead(q) == Strict(q) /\ \A k \in Dom(q) : ~Less(q[k], q[1])
Polys == {q \in [1..3 -> Grid] : Cardinality({q[i] : i \in 1..3}) = 3 /\ Lead(q)} \cup {q \in [1..4 -> Grid] : Cardinality({q[i] : i \in 1..4}) = 4 /\ Lead(q)}
PolySet == Polys
Normals == {<<1, 0>>, <<0, 1>>, <<0 - 1, 0>>, <<0, 0 - 1>>, <<1, 1>>, <<1, 0 - 2>>, <<0 - 2, 1>>}
MInit == V \in PolySet /\ PS = [i \in Dom(V) |-> IntPt(V[i])] /\ hist = <<>>
MNext == /\ Len(hist) < MaxCuts /\ Len(PS) > 0
         /\ \E N \in Normals : \E x \in {<<0, 0>>, <<1, 1>>, <<G, 1>>} : PS' = TLCEval(ClipPoly(N, x, PS)) /\ hist' = Append(hist, <<N, x>>)
         /\ UNCHANGED V
MSpec == MInit /\ [][MNext]_vars
RAddG(a, b) == LET n == a[1] * b[2] + b[1] * a[2]  d == a[2] * b[2]  g == GcdG(Max2(Abs(n), d), Min2(Abs(n), d)) IN <<n \div g, d \div g>>
Area2(q) == IF Len(q) < 3 THEN <<0, 1>> ELSE FoldSeq(LAMBDA i, acc : RAddG(acc, <<CrossQ(q[1], q[i], q[i + 1]), q[1].d * q[1].d * q[i].d * q[i + 1].d>>), <<0, 1>>, [i \in 1..(Len(q) - 2) |-> i + 1])
Convex2 == Len(PS) >= 3 => \A i \in Dom(PS) : CrossQ(PS[i], NextI(PS, i), NextI(PS, (i % Len(PS)) + 1)) >= 0
Within == \A k \in Dom(hist) : \A i \in Dom(PS) : Side(hist[k][1], hist[k][2], PS[i]) <= 0
Additive == \A N \in {<<1, 0>>, <<1, 0 - 2>>, <<1, 1>>} : RAddG(Area2(ClipPoly(N, <<1, 1>>, PS)), Area2(ClipPoly(VScale(0 - 1, N), <<1, 1>>, PS))) = RAddG(Area2(PS), <<0, 1>>)
Idempotent == hist # <<>> => ClipPoly(hist[Len(hist)][1], hist[Len(hist)][2], PS) = PS
Self == hist = <<>> => ClipAll(PS, PolySides(V)) = PS /\ Area2(PS) = <<PolyArea2(V), 1>>
\* intersections do not depend on the order of the arguments
Other == << <<0, 0>>, <<2, 1>>, <<1, 2>> >>
Commute == hist = <<>> => Area2(ClipAll(PS, PolySides(Other))) = Area2(ClipAll([i \in Dom(Other) |-> IntPt(Other[i])], PolySides(V)))
\* points and segments of the grid against the uncut polygon
InRight == hist = <<>> => \A p \in Grid :
  LET o == {Orient(V[i], NextI(V, i), p) : i \in Dom(V)} IN
  /\ (InOut(V, p) = 0 - 1) = (o = {1}) /\ (InOut(V, p) = 1) = ((0 - 1) \in o)
  /\ (InOut(V, p) = 0) = (PolyDist(V, p).n = 0)
  /\ SimplePoly(V) /\ ConvexCCW(V)
SegRight == hist = <<>> => \A p, q \in Grid : LET a == V[1]  b == V[2]  c == LineCross(a, VSub(b, a), p, VSub(q, p)) IN
  /\ SegMeet(a, b, p, q) = SegMeet(q, p, b, a) /\ SegMeet(a, b, p, q) = SegMeet(p, q, a, b)
  /\ ProperCross(a, b, p, q) => SegMeet(a, b, p, q)
  /\ c.w # 0 => (SegMeet(a, b, p, q) = (0 <= c.x /\ c.x <= c.w /\ 0 <= c.y /\ c.y <= c.w))
  /\ c.w # 0 => VAdd(VScale(c.w, a), VScale(c.x, VSub(b, a))) = VAdd(VScale(c.w, p), VScale(c.y, VSub(q, p)))
\* the clipped segment is what lies in both
SegClipRight == hist = <<>> => \A p, q \in Grid : p = q \/
  LET r == FoldSeq(LAMBDA h, acc : IF acc = <<>> THEN acc ELSE SegClip(h.N, h.x, acc), <<IntPt(p), IntPt(q)>>, PolySides(V)) IN
  (r # <<>>) = (InOut(V, p) <= 0 \/ InOut(V, q) <= 0 \/ \E i \in Dom(V) : SegMeet(V[i], NextI(V, i), p, q))
BoxRight == hist = <<>> => LET B == BoxOf(V) IN \A p \in (0..(G + 1)) \X (0..(G + 1)) :
  /\ BoxHas(B, BoxNear(B, p)) /\ \A q \in Grid : BoxHas(B, q) => D2(p, BoxNear(B, p)) <= D2(p, q)
  /\ BoxFar2(B, p) = Max({D2(p, q) : q \in BoxCorners(B)})
  /\ BoxHas(B, p) = (BoxMeet(B, [lo |-> p, hi |-> p])) /\ \A i \in Dom(V) : BoxHas(B, V[i])
DiskRight == hist = <<>> => \A r \in 0..2 : LET q == DiskEq(V[1], VSub(V[2], V[1]), V[3], r) IN
  /\ (Disc(q) >= 0) = (r * r * q.A >= Tri2(V[1], V[2], V[3]) * Tri2(V[1], V[2], V[3]))
  /\ ISqrt(q.A * q.A) = q.A
EmitInv == (Emit /\ Len(hist) = MaxCuts) => PrintT("CASE " \o ToJson([V |-> V, hist |-> hist]))
=============================================================================
