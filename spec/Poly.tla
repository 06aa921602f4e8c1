-------------------------------- MODULE Poly --------------------------------
(* Polyhedral (polytopal) meshes: vertices V (integer points), faces F         *)
(* (cyclic sequences of 0-based vertex indices), cells C (sequences of 0-based  *)
(* face indices).  All coordinates are integers (the recorder scales them), so  *)
(* volumes, sidedness and intersection points are exact.                       *)
EXTENDS Mesh
Cross3(a, b) == << a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1] >>
Dot3(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Zero3 == <<0, 0, 0>>
FlattenS(ss) == FoldSeq(LAMBDA s, acc : acc \o s, <<>>, ss)

(* ------------------------------ topology ---------------------------------- *)
Indexed(M) == /\ \A f \in Dom(M.F) : \A i \in Dom(M.F[f]) : M.F[f][i] \in 0..(Len(M.V) - 1)
              /\ \A c \in Dom(M.C) : \A i \in Dom(M.C[c]) : M.C[c][i] \in 0..(Len(M.F) - 1)
CycNext(q, i) == IF i = Len(q) THEN q[1] ELSE q[i + 1]
EdgesOf(q) == [i \in Dom(q) |-> Sorted2(q[i], CycNext(q, i))]
CellFaceSeqs(M, c) == [i \in Dom(M.C[c]) |-> M.F[M.C[c][i] + 1]]
CellVerts(M, c) == UNION {ToSet(M.F[f + 1]) : f \in ToSet(M.C[c])}
\* every edge of the cell belongs to exactly two of its faces: the surface of the cell has no hole
ClosedCell(M, c) == LET es == FlattenS([i \in Dom(M.C[c]) |-> EdgesOf(M.F[M.C[c][i] + 1])]) IN \A e \in ToSet(es) : Count(es, e) = 2
Closed(M) == \A c \in Dom(M.C) : ClosedCell(M, c)
CellsOf(M, f) == {c \in Dom(M.C) : f \in ToSet(M.C[c])}
\* cells around face f, with repetitions, in ascending order
FaceCells(M, f) == FlattenS([c \in Dom(M.C) |-> [k \in 1..Count(M.C[c], f) |-> c - 1]])
AtMostTwo(M) == \A f \in Dom(M.F) : Len(FaceCells(M, f - 1)) <= 2
BoundaryFaces(M) == SortedSeq({f \in 0..(Len(M.F) - 1) : Len(FaceCells(M, f)) <= 1})

(* ------------------------------ geometry ---------------------------------- *)
Pts(M, q) == [i \in Dom(q) |-> M.V[q[i] + 1]]
\* twice the vector area of a planar polygon
AreaVec(q) == IF Len(q) < 3 THEN Zero3
  ELSE FoldSeq(LAMBDA i, acc : VAdd(Cross3(VSub(q[i], q[1]), VSub(q[i + 1], q[1])), acc), Zero3, [i \in 1..(Len(q) - 2) |-> i + 1])
NonDeg(q) == AreaVec(q) # Zero3
\* six times the volume of a convex body given by its faces (sequences of points), seen from one of its points
PyrVol(faces, p) == FoldSeq(LAMBDA q, acc : acc + (IF Len(q) < 3 THEN 0 ELSE Abs(Dot3(AreaVec(q), VSub(q[1], p)))), 0, faces)
CellPts(M, c) == [i \in Dom(M.C[c]) |-> Pts(M, M.F[M.C[c][i] + 1])]
BodyVol(faces) == LET nz == SelectSeq(faces, LAMBDA q : q # <<>>) IN IF nz = <<>> THEN 0 ELSE PyrVol(nz, nz[1][1])
CellVol(M, c) == BodyVol(CellPts(M, c))
Volume(M) == FoldSeq(LAMBDA c, acc : acc + CellVol(M, c), 0, [c \in Dom(M.C) |-> c])
\* extreme points of a planar convex point set
Between(p, a, b) == p # a /\ p # b /\ Cross3(VSub(a, p), VSub(b, p)) = Zero3 /\ Dot3(VSub(a, p), VSub(b, p)) < 0
Corners(S) == {p \in S : \A a, b \in S : ~Between(p, a, b)}
Shape(faces) == {Corners(ToSet(faces[i])) : i \in {i \in Dom(faces) : NonDeg(faces[i])}}
\* the geometry of a mesh: its full-dimensional cells in order
FullCells(M) == SelectSeq([c \in Dom(M.C) |-> c], LAMBDA c : CellVol(M, c) # 0)
Geometry(M) == LET ix == FullCells(M) IN [k \in Dom(ix) |-> [shape |-> Shape(CellPts(M, ix[k])), vol |-> CellVol(M, ix[k])]]
\* no two faces of the cell in one plane, all vertices extreme and distinct
StrictlyConvex(M, c) == LET fs == CellPts(M, c) IN
  /\ Cardinality({M.V[v + 1] : v \in CellVerts(M, c)}) = Cardinality(CellVerts(M, c))
  /\ \A i \in Dom(fs) : Corners(ToSet(fs[i])) = ToSet(fs[i])
  /\ \A i \in Dom(fs) : NonDeg(fs[i]) /\ \A j \in Dom(fs) \ {i} : \E p \in ToSet(fs[j]) : Dot3(AreaVec(fs[i]), VSub(p, fs[i][1])) # 0

(* -------------------------------- clipping -------------------------------- *)
\* half-space n.x <= d
Side(n, d, p) == Dot3(n, p) - d
Crossing(n, d, a, b) == LET sa == Side(n, d, a) sb == Side(n, d, b) IN      \* sa < 0 < sb or sb < 0 < sa; exact by assumption
  [k \in 1..3 |-> a[k] + ((b[k] - a[k]) * sa) \div (sa - sb)]
OnGrid(n, d, a, b) == LET sa == Side(n, d, a) sb == Side(n, d, b) w == Abs(sa - sb) IN
  \A k \in 1..3 : LET x == (b[k] - a[k]) * sa IN x = w * (x \div w)
ClipFace(n, d, q) ==
  FlattenS([i \in Dom(q) |-> LET a == q[i] b == CycNext(q, i) sa == Side(n, d, a) sb == Side(n, d, b) IN
     (IF sa <= 0 THEN <<a>> ELSE <<>>) \o (IF (sa < 0 /\ sb > 0) \/ (sa > 0 /\ sb < 0) THEN <<Crossing(n, d, a, b)>> ELSE <<>>)])
ClipCell(n, d, faces) ==      \* the shape and volume of the part of a convex cell inside the half-space
  LET cl == SelectSeq([i \in Dom(faces) |-> ClipFace(n, d, faces[i])], LAMBDA q : q # <<>>)
      out == \E i \in Dom(faces) : \E p \in ToSet(faces[i]) : Side(n, d, p) > 0
      pts == UNION {ToSet(cl[i]) : i \in Dom(cl)}
      cap == Corners({p \in pts : Side(n, d, p) = 0})
      p0 == IF cl = <<>> THEN Zero3 ELSE IF out /\ cap # {} THEN CHOOSE p \in cap : TRUE ELSE cl[1][1]
  IN [shape |-> Shape(cl) \cup (IF out /\ Cardinality(cap) >= 3 THEN {cap} ELSE {}), vol |-> PyrVol(cl, p0)]
ClipGeometry(M, n, d) ==
  LET g == [c \in Dom(M.C) |-> ClipCell(n, d, CellPts(M, c))] IN SelectSeq(g, LAMBDA x : x.vol # 0)
ClipKept(M, n, d) == SelectSeq([c \in Dom(M.C) |-> c], LAMBDA c : ClipCell(n, d, CellPts(M, c)).vol # 0)
ClipRel(M, n, d, N) ==
  LET ix == FullCells(N) kept == ClipKept(M, n, d) IN
  /\ Indexed(N) /\ Closed(N)
  /\ AtMostTwo(M) => AtMostTwo(N)
  /\ Geometry(N) = ClipGeometry(M, n, d)
  \* cells that shared a face share what is left of it
  /\ \A k \in Dom(kept) : \A m \in Dom(kept) : k < m =>
       \A f \in ToSet(M.C[kept[k]]) \cap ToSet(M.C[kept[m]]) :
         LET q == ClipFace(n, d, Pts(M, M.F[f + 1])) IN NonDeg(q) =>
           \E g \in ToSet(N.C[ix[k]]) \cap ToSet(N.C[ix[m]]) : Corners(ToSet(Pts(N, N.F[g + 1]))) = Corners(ToSet(q))

(* ---------------------------- other operations ---------------------------- *)
PolyKeepRel(M, list, N) ==
  /\ Indexed(N) /\ Len(N.C) = Len(list)
  /\ \A i \in Dom(list) : Len(N.C[i]) = Len(M.C[list[i] + 1])
  /\ LET R == UNION {{<<M.C[list[i] + 1][j], N.C[i][j]>> : j \in Dom(N.C[i])} : i \in Dom(list)} IN
     /\ Bij(R) /\ {r[2] : r \in R} = 0..(Len(N.F) - 1)
     /\ \A r \in R : Len(M.F[r[1] + 1]) = Len(N.F[r[2] + 1])
     /\ LET W == UNION {{<<M.F[r[1] + 1][j], N.F[r[2] + 1][j]>> : j \in Dom(N.F[r[2] + 1])} : r \in R} IN
        /\ Bij(W) /\ {w[2] : w \in W} = 0..(Len(N.V) - 1)
        /\ \A w \in W : M.V[w[1] + 1] = N.V[w[2] + 1]
Shift(ss, k) == [i \in Dom(ss) |-> [j \in Dom(ss[i]) |-> ss[i][j] + k]]
ConcatOf(Ms) == FoldSeq(LAMBDA M, A : [V |-> A.V \o M.V, F |-> A.F \o Shift(M.F, Len(A.V)), C |-> A.C \o Shift(M.C, Len(A.F))],
                        [V |-> <<>>, F |-> <<>>, C |-> <<>>], Ms)
DedupRel(M, N) ==
  /\ N.V = M.V /\ Indexed(N) /\ Len(N.C) = Len(M.C)
  /\ \A i, j \in Dom(N.F) : i # j => ToSet(N.F[i]) # ToSet(N.F[j])
  /\ ToSet(N.F) \subseteq ToSet(M.F)
  /\ {ToSet(N.F[i]) : i \in Dom(N.F)} = {ToSet(M.F[i]) : i \in Dom(M.F)}
  /\ \A c \in Dom(M.C) : /\ Len(N.C[c]) = Len(M.C[c])
                         /\ \A j \in Dom(M.C[c]) : ToSet(N.F[N.C[c][j] + 1]) = ToSet(M.F[M.C[c][j] + 1])
SplitEdgesRel(M, N) ==
  LET n == Len(M.V) IN
  /\ Indexed(N) /\ N.C = M.C /\ Len(N.F) = Len(M.F)
  /\ Len(N.V) >= n /\ SubSeq(N.V, 1, n) = M.V
  /\ \A f \in Dom(M.F) : /\ Len(N.F[f]) = 2 * Len(M.F[f])
                         /\ \A i \in Dom(M.F[f]) : N.F[f][2 * i - 1] = M.F[f][i]
  /\ LET R == UNION {{<<Sorted2(M.F[f][i], CycNext(M.F[f], i)), N.F[f][2 * i]>> : i \in Dom(M.F[f])} : f \in Dom(M.F)} IN
     /\ Bij(R) /\ {r[2] : r \in R} = n..(Len(N.V) - 1)
     /\ \A r \in R : VAdd(M.V[r[1][1] + 1], M.V[r[1][2] + 1]) = VScale(2, N.V[r[2] + 1])
RECURSIVE SplitTimes(_, _, _)
SplitTimes(Ms, i, n) == n = 0 \/ (SplitEdgesRel(Ms[i], Ms[i + 1]) /\ SplitTimes(Ms, i + 1, n - 1))
Tetrahedral(M, c) == /\ Len(M.C[c]) = 4 /\ Cardinality(CellVerts(M, c)) = 4
                     /\ {ToSet(M.F[f + 1]) : f \in ToSet(M.C[c])} = kSubset(3, CellVerts(M, c))
                     /\ \A f \in ToSet(M.C[c]) : Len(M.F[f + 1]) = 3
ConvexCell(M, c) == LET fs == CellPts(M, c) vs == {M.V[v + 1] : v \in CellVerts(M, c)} IN
  /\ ClosedCell(M, c)
  /\ \A i \in Dom(fs) : NonDeg(fs[i]) =>
       LET n == AreaVec(fs[i]) side == {Dot3(n, VSub(p, fs[i][1])) : p \in vs} IN
       ((\A x \in side : x >= 0) \/ (\A x \in side : x <= 0)) /\ (\A p \in ToSet(fs[i]) : Dot3(n, VSub(p, fs[i][1])) = 0)
SimpleCells(M) == /\ \A c \in Dom(M.C) : M.C[c] = <<>> \/ StrictlyConvex(M, c)
                  /\ \A c, d \in Dom(M.C) : c # d => ~(CellVerts(M, c) \subseteq CellVerts(M, d)) \/ M.C[c] = <<>>
\* what holds for every mesh: tetrahedra inside their cells whose volumes add up
TriangulateWeak(M, N) ==
  LET parents(t) == {c \in Dom(M.C) : CellVerts(N, t) \subseteq CellVerts(M, c)} IN
  /\ N.V = M.V /\ Indexed(N)
  /\ \A i, j \in Dom(N.F) : i # j => ToSet(N.F[i]) # ToSet(N.F[j])
  /\ \A t \in Dom(N.C) : Len(N.C[t]) = 4 /\ (\A f \in ToSet(N.C[t]) : Len(N.F[f + 1]) = 3) /\ parents(t) # {}
  /\ (\A c \in Dom(M.C) : ConvexCell(M, c)) => Volume(N) = Volume(M)
\* strictly convex cells: a conforming subdivision
TriangulateRel(M, N) ==
  LET parents(t) == {c \in Dom(M.C) : CellVerts(N, t) \subseteq CellVerts(M, c)} IN
  /\ N.V = M.V /\ Indexed(N)
  /\ \A i, j \in Dom(N.F) : i # j => ToSet(N.F[i]) # ToSet(N.F[j])
  /\ \A t \in Dom(N.C) : Tetrahedral(N, t) /\ CellVol(N, t) # 0 /\ Cardinality(parents(t)) = 1
  /\ \A c \in Dom(M.C) : CellVol(M, c) = FoldSeq(LAMBDA t, acc : acc + (IF c \in parents(t) THEN CellVol(N, t) ELSE 0), 0, [t \in Dom(N.C) |-> t])
  /\ \A f \in 0..(Len(N.F) - 1) :
       LET around == CellsOf(N, f) fv == ToSet(N.F[f + 1]) q == Pts(N, N.F[f + 1]) IN
       CASE Cardinality(around) = 0 -> TRUE
         [] Cardinality(around) = 1 -> \E g \in Dom(M.F) : fv \subseteq ToSet(M.F[g]) /\ Cardinality(CellsOf(M, g - 1)) = 1
         [] Cardinality(around) = 2 ->     \* on opposite sides
              LET side(t) == LET a == CHOOSE v \in CellVerts(N, t) \ fv : TRUE IN Dot3(AreaVec(q), VSub(N.V[a + 1], q[1]))
                  t1 == Min(around) t2 == Max(around)
              IN (side(t1) < 0) # (side(t2) < 0)
         [] OTHER -> FALSE
TetMeshRel(M, V, C) ==
  /\ V = M.V /\ Len(C) = Len(M.C)
  /\ \A c \in Dom(C) : ToSet(C[c]) = CellVerts(M, c) /\ Len(C[c]) = 4
                       /\ Tet6(V[C[c][1] + 1], V[C[c][2] + 1], V[C[c][3] + 1], V[C[c][4] + 1]) > 0
\* polyhedral mesh of a mesh of linear cells
Rotations(q) == {[i \in Dom(q) |-> q[((i + k - 1) % Len(q)) + 1]] : k \in 0..(Len(q) - 1)}
FromRel(K, N) ==
  /\ N.V = K.V /\ Indexed(N) /\ Len(N.C) = Len(K.C)
  /\ \A i, j \in Dom(N.F) : i # j => ToSet(N.F[i]) # ToSet(N.F[j])
  /\ UNION {ToSet(N.C[c]) : c \in Dom(N.C)} = 0..(Len(N.F) - 1)
  /\ \A c \in Dom(K.C) :
       LET want == [f \in Dom(Faces[K.ct]) |-> FaceVerts(K, c, f)] IN
       /\ Len(N.C[c]) = Len(want)
       /\ BagEq([f \in Dom(want) |-> ToSet(want[f])], [j \in Dom(N.C[c]) |-> ToSet(N.F[N.C[c][j] + 1])])
  \* a face is one of the cells' own faces, vertices in the order of that cell: boundary faces stay oriented
  /\ LET own == {FaceVerts(K, id[1], id[2]) : id \in FaceIds(K)} IN
     \A f \in Dom(N.F) : \E q \in own : N.F[f] \in Rotations(q)
HalfSpaceOfFace(V, t, n, d) == (\A i \in Dom(V) : Side(n, d, V[i]) <= 0) /\ \A k \in Dom(t) : Side(n, d, V[t[k] + 1]) = 0
=============================================================================
