---------------------------- MODULE Trace_Geometry -----------------------------
EXTENDS Geometry, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, box
E == Trace[l]
R == E.r
TInit == l = 1 /\ st = Start(<< <<0, 0>> >>) /\ box = [lo |-> <<>>, hi |-> <<>>]
IsEvent(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
\* a query: no panic, and an answer that meets the relation
Ask(op, rel) == IsEvent(op) /\ E.ok = 1 /\ (rel = TRUE) /\ UNCHANGED <<st, box>>
Bool(x) == IF x THEN 1 ELSE 0
\* r / 1000 is the square root of the integer x
RootOf(r, x) == r >= 0 /\ Abs(r * r - 1000000 * x) <= 2 * r + 1
\* r / 1000 is the unit vector along v
UnitOf(r, v) == LET L == Dot(v, v) IN \A i \in Dom(v) : r[i] * v[i] >= 0 /\ Abs(r[i]) <= 1001 /\ Abs(r[i] * r[i] * L - 1000000 * v[i] * v[i]) <= 3000 * L
Neg(v) == VScale(0 - 1, v)
Params == << 0 - 2, 0 - 1, 0, 1, 2, 3, 4, 5, 6 >>
EdgesOf(V) == [i \in Dom(V) |-> <<V[i], NextI(V, i)>>]
\* distance to a set whose inside is free
OutDist(s, dist) == IF s <= 0 THEN [n |-> 0, d |-> 1] ELSE dist
\* the sign of a signed distance; on the boundary the distance says it all
SignOk(s, exactSign) == exactSign # 0 => s = exactSign

(* ---------------------------------- boxes ----------------------------------- *)
BoxNew == IsEvent("boxnew") /\ UNCHANGED <<st, box>> /\
  IF \A i \in Dom(E.lo) : E.lo[i] <= E.hi[i] THEN E.ok = 1 /\ R = [lo |-> E.lo, hi |-> E.hi] ELSE E.ok = 0
BoxOfE == Ask("boxof", R = IF E.a = <<>> THEN <<>> ELSE << BoxOf(E.a) >>)
BoxInfo == Ask("boxinfo", LET B == BoxOf(E.a)  e == VSub(B.hi, B.lo) IN
  /\ R.ext = e /\ R.mx = Max({e[i] : i \in Dom(e)}) /\ R.cen = VAdd(B.lo, B.hi) /\ R.self = B /\ R.from = [lo |-> E.a[1], hi |-> E.a[1]]
  /\ Len(R.cor) = Pow(2, Len(e)) /\ ToSet(R.cor) = BoxCorners(B))
BoxAsk == Ask("boxask", LET B == BoxOf(E.a)  c == BoxNear(B, E.p) IN
  /\ R.has = Bool(BoxHas(B, E.p)) /\ R.near = c /\ R.d2 = D2(c, E.p) /\ RootOf(R.d, R.d2)
  /\ R.m2 = BoxFar2(B, E.p) /\ RootOf(R.m, R.m2) /\ BoxHas(B, R.far) /\ D2(R.far, E.p) = R.m2)
BoxPair == Ask("boxpair", LET B == BoxOf(E.a)  C == BoxOf(E.b) IN R.meet = Bool(BoxMeet(B, C)) /\ R.join = BoxJoin(B, C))
\* a box that changes, in units of 1/64
Walk == IsEvent("walk") /\ E.ok = 1 /\ LET B == BoxOf(E.a) IN box' = [lo |-> VScale(64, B.lo), hi |-> VScale(64, B.hi)] /\ R = box' /\ UNCHANGED st
Wide(B) == [lo |-> VScale(64, B.lo), hi |-> VScale(64, B.hi)]
\* (lo + hi) / 2 + (x - (lo + hi) / 2) k / 2
ScaledTo(B, s) == [i \in Dom(B.lo) |-> (2 * (B.lo[i] + B.hi[i]) + s * (B.hi[i] - B.lo[i])) \div 4]
Step == IsEvent("step") /\ E.ok = 1 /\ UNCHANGED st /\ box' = R /\
  LET want == IF E.do = "enclose" THEN BoxJoin(box, Wide(BoxOf(E.a)))
              ELSE IF E.do = "grow" THEN [lo |-> [i \in Dom(box.lo) |-> box.lo[i] - 64 * E.k], hi |-> [i \in Dom(box.lo) |-> box.hi[i] + 64 * E.k]]
              ELSE [lo |-> ScaledTo(box, 0 - E.k), hi |-> ScaledTo(box, E.k)]
  IN R = want

(* --------------------------------- segments --------------------------------- *)
SegInfo == Ask("seginfo", LET e == VSub(E.b, E.a)  at == [k \in Dom(Params) |-> VAdd(VScale(4, E.a), VScale(Params[k], e))] IN
  /\ NearD2(R.l2, [n |-> Dot(e, e), d |-> 1]) /\ R.mid = VAdd(E.a, E.b) /\ R.tan = e /\ R.rev = <<E.b, E.a>> /\ R.dir = e /\ R.org = E.a /\ R.at = at /\ R.lat = at)
UnitE == Ask("unit", UnitOf(R.t, VSub(E.b, E.a)) /\ R.thru = VSub(E.b, E.a))
SegAsk == Ask("segask", LET q == SegParam(E.p, E.a, E.b)  c == OnSeg(E.p, E.a, E.b) IN
  /\ NearPt(R.pt, c.pt)
  /\ IF E.a = E.b THEN 0 <= R.t /\ R.t <= F5 /\ NearPt(R.lpt, IntPt(E.a))
     ELSE /\ NearQ(R.t, Clamp(q.n, 0, q.d), q.d, F5, 2) /\ NearQ(R.lt, q.n, q.d, F5, 2)
          /\ NearPt(R.lpt, [n |-> VAdd(VScale(q.d, E.a), VScale(q.n, VSub(E.b, E.a))), d |-> q.d]))
SegN == Ask("segn", R.n = <<E.b[2] - E.a[2], E.a[1] - E.b[1]>>)
PowerOfTwo(w) == w \in {1, 2, 4, 8, 16, 32, 64, 128}
SegSeg == Ask("segseg", LET e == VSub(E.b, E.a)  c == LineCross(E.a, e, E.c, VSub(E.d, E.c)) IN
  IF c.w = 0 THEN R.line = <<>> /\ R.sl = <<>> /\ R.pt = <<>> /\ R.seg = <<>>
  ELSE /\ Len(R.line) = 1 /\ NearQ(R.line[1][1], c.x, c.w, F5, 2) /\ NearQ(R.line[1][2], c.y, c.w, F5, 2)
       /\ Len(R.sl) = 1 /\ NearQ(R.sl[1], c.x, c.w, F5, 2)
       /\ Len(R.pt) = 1 /\ NearPt(R.pt[1], [n |-> VAdd(VScale(c.w, E.a), VScale(c.x, e)), d |-> c.w])
       \* segments that just touch are decided exactly only if the division is
       /\ LET free == ~PowerOfTwo(c.w) /\ (c.x \in {0, c.w} \/ c.y \in {0, c.w})
              hit == 0 <= c.x /\ c.x <= c.w /\ 0 <= c.y /\ c.y <= c.w IN
          /\ Len(R.seg) = 1 => (hit /\ NearQ(R.seg[1], c.x, c.w, F5, 2))
          /\ Len(R.seg) = 0 => (free \/ ~hit))
\* the roots of A t^2 + 2 B t + C in units of 1/1000
RootNear(r, q, s) == LET y == r * q.A + 1000 * q.B IN s * y >= 0 - q.A /\ Abs(y * y - 1000000 * Disc(q)) <= (q.A + 1) * (2 * Abs(y) + q.A)
PtAt(R5, a, e, t) == \A i \in Dom(a) : Abs(R5[i] - F5 * a[i] - 100 * t * e[i]) <= 100 * Abs(e[i]) + 4
DiskE == Ask("disk", LET e == VSub(E.b, E.a)  q == DiskEq(E.a, e, E.c, E.rad)  D == Disc(q) IN
  /\ D < 0 => R.line = <<>> /\ R.ls = <<>> /\ R.seg = <<>> /\ R.ss = <<>>
  /\ D >= 0 => /\ Len(R.line) = 1 /\ RootNear(R.line[1][1], q, 0 - 1) /\ RootNear(R.line[1][2], q, 1)
              /\ Len(R.ls) = 1 /\ PtAt(R.ls[1][1], E.a, e, R.line[1][1]) /\ PtAt(R.ls[1][2], E.a, e, R.line[1][2])
              /\ LET behind == q.B > 0 /\ q.C > 0        \* both roots below zero
                     ahead == q.A + q.B < 0 /\ q.A + 2 * q.B + q.C > 0  \* both above one
                     \* touching ones included: integer input keeps the discriminant and the roots 0 and 1 exact
                 IN
                 /\ Len(R.seg) = Len(R.ss)
                 /\ (behind \/ ahead) => R.seg = <<>>
                 /\ ~(behind \/ ahead) => Len(R.seg) = 1
                 /\ Len(R.seg) = 1 =>
                      /\ PtAt(R.ss[1][1], E.a, e, R.seg[1][1]) /\ PtAt(R.ss[1][2], E.a, e, R.seg[1][2])
                      /\ Abs(R.seg[1][1] - Clamp(R.line[1][1], 0, 1000)) <= 1 /\ Abs(R.seg[1][2] - Clamp(R.line[1][2], 0, 1000)) <= 1)
SegPoly == IsEvent("segpoly") /\ UNCHANGED <<st, box>> /\ E.ok = 1 /\
  (JudgeSeg(CutAll(Start(<<E.a, E.b>>), PolySides(E.V), StepSeg), IF R = <<>> THEN <<>> ELSE R[1]) = TRUE)

(* ------------------------------- planes in space ----------------------------- *)
PlaneE == Ask("plane",
  /\ UnitOf(R.n, E.N) /\ UnitOf(R.gn, E.N) /\ UnitOf(R.hn, E.N) /\ UnitOf(R.fn, Neg(E.N)) /\ UnitOf(R.kn, Neg(E.N)) /\ \A i \in Dom(R.pts) : R.pts[i] = E.x
  /\ Len(R.tan) = 2 /\ Abs(Dot(R.tan[1], R.tan[2])) <= 40000
  /\ \A i \in 1..2 : Abs(Dot(R.tan[i], R.tan[i]) - 100000000) <= 40000 /\ Abs(Dot(R.tan[i], E.N)) <= 20)
SideE == Ask("side", LET s == Dot(E.N, VSub(E.p, E.x))  dd == [n |-> s * s, d |-> Dot(E.N, E.N)] IN
  /\ NearD2(R.d2, dd) /\ NearD2(R.cd2, dd)
  /\ (s # 0 \/ Crisp(E.N)) => (R.s = Sign(s) /\ R.cs = 0 - Sign(s) /\ R.has = Bool(s <= 0)))
SegPlane == Ask("segplane", LET sa == Dot(E.N, VSub(E.a, E.x))  sb == Dot(E.N, VSub(E.b, E.x))  e == VSub(E.b, E.a) IN
  /\ 0 <= R.t /\ R.t <= F5 /\ \A i \in 1..3 : Abs(R.pt[i] - F5 * E.a[i] - R.t * e[i]) <= Abs(e[i]) + 2
  /\ IF sa = sb THEN TRUE
     ELSE IF sa * sb <= 0 THEN NearQ(R.t, Sign(sa - sb) * sa, Abs(sa - sb), F5, 2)
     ELSE R.t = IF Abs(sa) < Abs(sb) THEN 0 ELSE F5
  /\ sa * sb < 0 => Len(R.cut) = 1 /\ NearQ(R.cut[1], Sign(sa - sb) * sa, Abs(sa - sb), F5, 2)
  /\ sa * sb > 0 => R.cut = <<>>
  \* an end exactly on the plane, where the arithmetic is exact
  /\ (sa * sb = 0 /\ sa # sb /\ Crisp(E.N)) => Len(R.cut) = 1 /\ NearQ(R.cut[1], Sign(sa - sb) * sa, Abs(sa - sb), F5, 2))

(* --------------------------------- triangles --------------------------------- *)
Tri2E == Ask("tri2", LET V == E.V  A == Tri2(V[1], V[2], V[3]) IN
  /\ R.a2 = A /\ R.abs = Abs(A) /\ R.or = A /\ A # 0 => R.o = Sign(A)
  /\ NearPt(R.c, [n |-> VAdd(V[1], VAdd(V[2], V[3])), d |-> 3]) /\ R.sides = [i \in 1..3 |-> VSub(NextI(V, i), V[i])]
  /\ R.edges = EdgesOf(V) /\ R.box = BoxOf(V) /\ R.swap = <<V[3], V[2], V[1]>> /\ R.poly = V)
\* answers about the closest point of a polygon's boundary; k is 0-based
BoundaryAnswer(V, p, s, dd, pt, k) ==
  LET c == EdgeDist(V, p, k + 1) IN k \in 0..(Len(V) - 1) /\ RSame(c.dist, PolyDist(V, p)) /\ NearD2(dd, c.dist) /\ NearPt(pt, c.pt) /\ SignOk(s, InOut(V, p))
\* the winding order assumed by the queries
Tri2Ask == IsEvent("tri2ask") /\ UNCHANGED <<st, box>> /\
  ((Tri2(E.V[1], E.V[2], E.V[3]) > 0 =>
    E.ok = 1 /\ BoundaryAnswer(E.V, E.p, R.s, R.d2, R.pt, R.f) /\ NearD2(R.dd, OutDist(InOut(E.V, E.p), PolyDist(E.V, E.p)))) = TRUE)
Face3 == Ask("face3", LET V == E.V  A == AreaV(V)  n == Len(V) IN
  /\ R.nv = n /\ R.vs = [i \in 1..(n + 1) |-> IF i > n THEN <<>> ELSE <<V[i]>>] /\ R.av = A
  /\ UnitOf(R.n, A) /\ UnitOf(R.pn, A) /\ UnitOf(R.hn, Neg(A)) /\ R.pp \in ToSet(V) /\ R.hp \in ToSet(V))
Tri3E == Ask("tri3", LET V == E.V  A == AreaV(V) IN
  /\ R.nd = A /\ UnitOf(R.n, A) /\ NearD2(R.a2, [n |-> Dot(A, A), d |-> 4]) /\ NearPt(R.c, [n |-> VAdd(V[1], VAdd(V[2], V[3])), d |-> 3])
  /\ R.sides = [i \in 1..3 |-> VSub(NextI(V, i), V[i])] /\ R.edges = EdgesOf(V) /\ R.box = BoxOf(V))
Face3Ask == Ask("face3ask", LET c == OnFace(E.p, E.V)  s == Dot(AreaV(E.V), VSub(E.p, E.V[1])) IN
  /\ NearPt(R.pt, c.pt) /\ NearD2(R.d2, c.dist)
  /\ Len(E.V) = 3 => NearD2(R.dd, c.dist) /\ ((s # 0 \/ Crisp(AreaV(E.V))) => R.or = Sign(s)))
\* solid angles: the sign is the side, parts add up, a right-angled corner sees an eighth of the sphere
Solid == IsEvent("solid") /\ UNCHANGED <<st, box>> /\
  LET V == E.V  a == VSub(V[1], E.p)  b == VSub(V[2], E.p)  c == VSub(V[3], E.p)  D == Det3(a, b, c) IN
  ((D # 0 =>
    /\ E.ok = 1 /\ Sign(R.all) = Sign(D) /\ Abs(R.all) <= 628320 /\ Abs(R.turn - R.all) <= 2 /\ Abs(R.flip + R.all) <= 2
    /\ OnTri3(E.c, V[1], V[2], V[3]).dist.n = 0 => Abs(R.parts[1] + R.parts[2] + R.parts[3] - R.all) <= 4
    /\ (Dot(a, b) = 0 /\ Dot(b, c) = 0 /\ Dot(c, a) = 0) => Abs(Abs(R.all) - 157080) <= 2) = TRUE)

(* ---------------------------------- bodies ----------------------------------- *)
BodyE == Ask("body", LET f == BodyFaces[E.body] IN
  /\ NearQ(R.vol, BodyVol6(E.body, E.V), 1, F3, 2) /\ R.box = BoxOf(E.V) /\ R.more = 0
  /\ Len(R.faces) = Len(f)
  \* some order of the faces, each starting anywhere, oriented like the specification's
  /\ \A i \in Dom(f) : LET q == FacePts(E.body, E.V, i) IN
       \E k \in Dom(f) : Len(R.faces[k]) = Len(q) /\ \E j \in Dom(q) : \A m \in Dom(q) : R.faces[k][((m + j - 1) % Len(q)) + 1] = q[m])
BodyAsk == Ask("bodyask", LET s == BodyInOut(E.body, E.V, E.p)  dd == BodyDist(E.body, E.V, E.p) IN
  /\ SignOk(R.s, s) /\ NearD2(R.d2, dd) /\ NearD2(R.dd, OutDist(s, dd)) /\ (s # 0 => R.has = Bool(s < 0))
  /\ R.f \in 0..(Len(BodyFaces[E.body]) - 1) /\ LET c == FaceDist(E.body, E.V, R.f + 1, E.p) IN RSame(c.dist, dd) /\ NearPt(R.pt, c.pt))
Winding == IsEvent("winding") /\ UNCHANGED <<st, box>> /\
  LET s == BodyInOut(E.body, E.V, E.p) IN (s # 0 => E.ok = 1 /\ Abs(R.w - (IF s < 0 THEN F5 ELSE 0)) <= 4)

(* --------------------------------- polygons ---------------------------------- *)
Quad2E == Ask("quad2", R.a2 = Abs(PolyArea2(E.V)) /\ R.box = BoxOf(E.V))
Concave(V) == {i \in Dom(V) : Tri2(V[IF i = 1 THEN Len(V) ELSE i - 1], V[i], NextI(V, i)) < 0}
Corner == Ask("corner", LET C == Concave(E.V) IN
  IF C = {} THEN R.k = <<>> /\ R.poly = <<E.V>> ELSE R.k # <<>> /\ (R.k[1] + 1) \in C /\ R.poly = <<>>)
Quad2Ask == Ask("quad2ask", NearD2(R.dd, OutDist(InOut(E.V, E.p), PolyDist(E.V, E.p))))
PolyE == Ask("poly", LET V == E.V  A == PolyArea2(V)  n == Len(V) IN
  /\ R.a2 = A /\ R.abs = Abs(A) /\ (A # 0 => R.o = Sign(A)) /\ R.ne = n /\ R.nv = n
  /\ R.edges = [i \in 1..(n + 1) |-> IF i > n THEN <<>> ELSE <<EdgesOf(V)[i]>>] /\ R.none = Bool(n = 0) /\ (n = 0 => R.hit = 0))
PolyBox == Ask("polybox", R.box = BoxOf(E.V) /\ R.it = EdgesOf(E.V))
PolyAsk == IsEvent("polyask") /\ UNCHANGED <<st, box>> /\
  ((PolyArea2(E.V) > 0 =>
    /\ E.ok = 1 /\ BoundaryAnswer(E.V, E.p, R.s, R.d2, R.pt, R.k) /\ NearD2(R.dd, OutDist(InOut(E.V, E.p), PolyDist(E.V, E.p)))
    /\ LET q == SegParam(E.p, E.V[R.k + 1], NextI(E.V, R.k + 1)) IN NearQ(R.t, Clamp(q.n, 0, q.d), q.d, F5, 2)) = TRUE)
\* a segment meets the closed polygon; if it only touches, either answer is fine
PolySeg == IsEvent("polyseg") /\ UNCHANGED <<st, box>> /\
  ((PolyArea2(E.V) > 0 =>
    LET io == {InOut(E.V, E.a), InOut(E.V, E.b)}
        deep == (0 - 1) \in io \/ \E i \in Dom(E.V) : ProperCross(E.a, E.b, E.V[i], NextI(E.V, i))
        touch == 0 \in io \/ \E i \in Dom(E.V) : SegMeet(E.a, E.b, E.V[i], NextI(E.V, i))
    IN E.ok = 1 /\ (deep => R.hit = 1) /\ (~(deep \/ touch) => R.hit = 0)) = TRUE)
TriArea(T) == Tri2(T[1], T[2], T[3])
Fan(V) == [i \in 1..(Len(V) - 2) |-> <<V[1], V[i + 1], V[i + 2]>>]
\* triangles with the corners of the polygon, all oriented like it, that add up to it
Covers(V, T) == /\ \A i \in Dom(T) : TriArea(T[i]) >= 0 /\ \A k \in 1..3 : T[i][k] \in ToSet(V)
                /\ SumSeq([i \in Dom(T) |-> TriArea(T[i])]) = PolyArea2(V) /\ Len(T) = Len(V) - 2
CPoly == Ask("cpoly", LET V == E.V  n == Len(V) IN
  /\ R.ne = n /\ R.edges = EdgesOf(V) /\ R.is = <<Bool(n = 0), Bool(n = 1), Bool(n = 2)>> /\ R.simple = V
  /\ LET h == PolySides(V) IN Len(R.hp) = Len(h) /\ \A i \in Dom(h) : Tri2(h[i].x, VAdd(h[i].x, <<0 - h[i].N[2], h[i].N[1]>>), R.hp[i][1]) = 0 /\ UnitOf(R.hp[i][2], h[i].N)
  /\ n >= 3 => Covers(V, R.tri) /\ R.tri2 = R.tri /\ Covers(V, R.fan)
  /\ n >= 3 => LET at == [i \in 1..n |-> <<E.q, V[i], NextI(V, i)>>] IN Len(R.at) = n /\ \A i \in 1..n : \E k \in 1..n : R.at[k] = at[i])
CPolyAsk == IsEvent("cpolyask") /\ UNCHANGED <<st, box>> /\
  LET V == E.V IN
  IF Len(V) = 1 THEN E.ok = 1 /\ R.has = Bool(E.p = V[1]) ELSE
  Len(V) >= 3 => LET h == PolySides(V)  s == {Dot(h[i].N, VSub(E.p, h[i].x)) : i \in Dom(h)}
                     sure == \A i \in Dom(h) : Dot(h[i].N, VSub(E.p, h[i].x)) = 0 => Crisp(h[i].N) IN
                 (E.ok = 1 /\ ((\E x \in s : x > 0) => R.has = 0) /\ (((\A x \in s : x <= 0) /\ sure) => R.has = 1))
Meet == IsEvent("meet") /\ UNCHANGED <<st, box>> /\
  LET c == CutAll(Start(E.V), PolySides(E.W), StepCut) IN IF c.mode = "any" THEN TRUE ELSE E.ok = 1 /\ Judge(c, R)
Cut0 == IsEvent("cut0") /\ E.ok = 1 /\ st' = Start(E.V) /\ Len(R) = Len(E.V) /\ (\A i \in Dom(R) : NearPt(R[i], IntPt(E.V[i]))) /\ UNCHANGED box
CutE == IsEvent("cut") /\ UNCHANGED box /\ st' = TLCEval(StepCut(st, E.N, E.x)) /\ (IF st'.mode = "any" THEN TRUE ELSE E.ok = 1 /\ (Judge(st', R) = TRUE))
CutSeg == IsEvent("cutseg") /\ UNCHANGED box /\ st' = TLCEval(StepSeg(st, E.N, E.x)) /\ E.ok = 1 /\ (JudgeSeg(st', R) = TRUE)
Cut3 == IsEvent("cut3") /\ UNCHANGED box /\ st' = TLCEval(StepCut(st, E.N, E.x)) /\ E.ok = 1 /\ (Judge(st', R) = TRUE)
Space == Ask("space", LET A == AreaV(E.V) IN R.av = A /\ NearD2(R.a2, [n |-> Dot(A, A), d |-> 4]) /\ R.box = BoxOf(E.V))

(* ------------------------------ distance functions --------------------------- *)
SdfBox == Ask("sdfbox", LET B == BoxOf(E.a) IN
  /\ \A i \in 1..2 : /\ R.cir.lo[i] <= F5 * (E.c[i] - E.rad) /\ R.cir.hi[i] >= F5 * (E.c[i] + E.rad)
                     /\ R.un.lo[i] = Min2(R.cir.lo[i], R.box.lo[i]) /\ R.un.hi[i] = Max2(R.cir.hi[i], R.box.hi[i])
  /\ R.box = [lo |-> VScale(F5, B.lo), hi |-> VScale(F5, B.hi)])
SdfE == Ask("sdf", LET B == BoxOf(E.a)  y == VSub(E.p, E.c)  c == BoxNear(B, E.p)
                       w == VSub(E.p, c)
                       in == Min({E.p[i] - B.lo[i] : i \in 1..2} \cup {B.hi[i] - E.p[i] : i \in 1..2}) IN
  /\ RootOf(R.cir + 1000 * E.rad, Dot(y, y)) /\ (IF BoxHas(B, E.p) THEN R.box = 0 - 1000 * in ELSE RootOf(R.box, Dot(w, w)))
  /\ R.un = Min2(R.cir, R.box)
  /\ (y # <<0, 0>> => Len(R.gc) = 1 /\ UnitOf(R.gc[1], y)) /\ (y = <<0, 0>> => R.gc = <<>>)
  /\ ~BoxHas(B, E.p) => Len(R.gb) = 1 /\ UnitOf(R.gb[1], w)
  /\ (R.cir < R.box => R.gu = R.gc) /\ (R.box < R.cir => R.gu = R.gb))
Shift == Ask("shift", R.eq = Bool(Len(E.x) = Len(E.y) /\ (E.x = <<>> \/ \E k \in Dom(E.x) : \A j \in Dom(E.x) : E.x[((j + k - 2) % Len(E.x)) + 1] = E.y[j])))

TNext == \/ BoxNew \/ BoxOfE \/ BoxInfo \/ BoxAsk \/ BoxPair \/ Walk \/ Step \/ SegInfo \/ UnitE \/ SegAsk \/ SegN \/ SegSeg \/ DiskE \/ SegPoly
         \/ PlaneE \/ SideE \/ SegPlane \/ Tri2E \/ Tri2Ask \/ Face3 \/ Tri3E \/ Face3Ask \/ Solid \/ BodyE \/ BodyAsk \/ Winding
         \/ Quad2E \/ Corner \/ Quad2Ask \/ PolyE \/ PolyBox \/ PolyAsk \/ PolySeg \/ CPoly \/ CPolyAsk \/ Meet \/ Cut0 \/ CutE \/ CutSeg \/ Cut3 \/ Space
         \/ SdfBox \/ SdfE \/ Shift
TSpec == TInit /\ [][TNext]_<<l, st, box>>
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("STUCK " \o ToString(d)) /\ FALSE
=============================================================================
