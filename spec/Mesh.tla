-------------------------------- MODULE Mesh --------------------------------
(* Index-based meshes [ct, V, C]: cell type, vertex coordinates (integers),   *)
(* cells as sequences of 0-based vertex indices; and the operations on them   *)
(* as relations between the mesh before and the mesh after.                   *)
EXTENDS Util, TLC

(* --------------------------- cell types ---------------------------------- *)
\* local faces (0-based local nodes), oriented outwards
Faces == [
  seg2 |-> <<>>, seg3 |-> <<>>, seg2s |-> <<>>, seg3s |-> <<>>, tet20 |-> <<>>,
  tri3 |-> << <<0,1>>, <<1,2>>, <<2,0>> >>,
  tri3s |-> << <<0,1>>, <<1,2>>, <<2,0>> >>,
  tri6 |-> << <<0,3,1>>, <<1,4,2>>, <<2,5,0>> >>,
  tri6s |-> << <<0,3,1>>, <<1,4,2>>, <<2,5,0>> >>,
  quad4 |-> << <<0,1>>, <<1,2>>, <<2,3>>, <<3,0>> >>,
  quad4s |-> << <<0,1>>, <<1,2>>, <<2,3>>, <<3,0>> >>,
  quad8s |-> << <<0,4,1>>, <<1,5,2>>, <<2,6,3>>, <<3,7,0>> >>,
  quad9 |-> << <<0,4,1>>, <<1,5,2>>, <<2,6,3>>, <<3,7,0>> >>,
  quad9s |-> << <<0,4,1>>, <<1,5,2>>, <<2,6,3>>, <<3,7,0>> >>,
  tet4 |-> << <<0,2,1>>, <<0,1,3>>, <<1,2,3>>, <<0,3,2>> >>,
  tet10 |-> << <<0,2,1,6,5,4>>, <<0,1,3,4,9,7>>, <<1,2,3,5,8,9>>, <<0,3,2,7,8,6>> >>,
  hex8 |-> << <<3,2,1,0>>, <<0,1,5,4>>, <<1,2,6,5>>, <<2,3,7,6>>, <<4,7,3,0>>, <<5,6,7,4>> >>,
  hex20 |-> << <<0,3,2,1,9,13,11,8>>, <<0,1,5,4,8,12,16,10>>, <<1,2,6,5,11,14,18,12>>,
               <<2,3,7,6,13,15,19,14>>, <<0,4,7,3,10,17,15,9>>, <<4,5,6,7,16,18,19,17>> >>,
  hex27 |-> << <<0,3,2,1,9,13,11,8,20>>, <<0,1,5,4,8,12,16,10,21>>, <<1,2,6,5,11,14,18,12,23>>,
               <<2,3,7,6,13,15,19,14,24>>, <<0,4,7,3,10,17,15,9,22>>, <<4,5,6,7,16,18,19,17,25>> >> ]
FaceType == [tri3 |-> "seg2", tri6 |-> "seg3", quad4 |-> "seg2", quad9 |-> "seg3", tri3s |-> "seg2s", tri6s |-> "seg3s",
             quad4s |-> "seg2s", quad8s |-> "seg3s", quad9s |-> "seg3s", tet4 |-> "tri3s", tet10 |-> "tri6s",
             hex8 |-> "quad4s", hex20 |-> "quad8s", hex27 |-> "quad9s"]
NumNodes == [seg2 |-> 2, seg3 |-> 3, seg2s |-> 2, seg3s |-> 3, tri3 |-> 3, tri3s |-> 3, tri6 |-> 6, tri6s |-> 6,
             quad4 |-> 4, quad4s |-> 4, quad8s |-> 8, quad9 |-> 9, quad9s |-> 9, tet4 |-> 4, tet10 |-> 10, tet20 |-> 20,
             hex8 |-> 8, hex20 |-> 20, hex27 |-> 27]
\* node numbering of the higher-order types: the corner nodes each node is the mean of (with repetition)
Singles(n) == [i \in 1..n |-> <<i - 1>>]
Tri6P  == Singles(3) \o << <<0,1>>, <<1,2>>, <<2,0>> >>
Quad9P == Singles(4) \o << <<0,1>>, <<1,2>>, <<2,3>>, <<3,0>>, <<0,1,2,3>> >>
Tet10P == Singles(4) \o << <<0,1>>, <<1,2>>, <<0,2>>, <<0,3>>, <<2,3>>, <<1,3>> >>
Tet20P == Singles(4) \o << <<0,0,1>>, <<0,1,1>>, <<0,0,2>>, <<0,2,2>>, <<0,0,3>>, <<0,3,3>>, <<1,1,2>>, <<1,2,2>>,
                           <<1,1,3>>, <<1,3,3>>, <<2,2,3>>, <<2,3,3>>, <<0,1,2>>, <<0,1,3>>, <<0,2,3>>, <<1,2,3>> >>
Hex20P == Singles(8) \o << <<0,1>>, <<0,3>>, <<0,4>>, <<1,2>>, <<1,5>>, <<2,3>>, <<2,6>>, <<3,7>>, <<4,5>>, <<4,7>>, <<5,6>>, <<6,7>> >>
Hex27P == Hex20P \o << <<0,1,2,3>>, <<0,1,5,4>>, <<0,3,7,4>>, <<1,2,6,5>>, <<2,3,7,6>>, <<4,5,6,7>>, <<0,1,2,3,4,5,6,7>> >>
NodeParents == [tri6 |-> Tri6P, quad9 |-> Quad9P, tet10 |-> Tet10P, tet20 |-> Tet20P, hex20 |-> Hex20P, hex27 |-> Hex27P]

(* --------------------------- vectors -------------------------------------- *)
VAdd(a, b) == [i \in Dom(a) |-> a[i] + b[i]]
VSub(a, b) == [i \in Dom(a) |-> a[i] - b[i]]
VScale(k, a) == [i \in Dom(a) |-> k * a[i]]
Cross2(a, b) == a[1] * b[2] - a[2] * b[1]
Det3(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1]) + a[3] * (b[1] * c[2] - b[2] * c[1])
P(M, i) == M.V[i + 1]                    \* vertex with 0-based index i
Tri2(a, b, c) == Cross2(VSub(b, a), VSub(c, a))                 \* twice the signed area
Tet6(a, b, c, d) == Det3(VSub(b, a), VSub(c, a), VSub(d, a))    \* six times the signed volume

(* --------------------------- structure ------------------------------------ *)
Verts(c) == ToSet(c)
Used(M) == UNION {Verts(M.C[k]) : k \in Dom(M.C)}
AllUsed(M) == Used(M) = 0..(Len(M.V) - 1)
WellFormed(M) == \A k \in Dom(M.C) : Len(M.C[k]) = NumNodes[M.ct] /\ \A i \in Verts(M.C[k]) : i < Len(M.V)
FaceVerts(M, c, f) == LET t == Faces[M.ct][f] IN [i \in Dom(t) |-> M.C[c][t[i] + 1]]
FaceIds(M) == {<<c, f>> : c \in Dom(M.C), f \in Dom(Faces[M.ct])}
\* faces by vertex set: a cell face is on the boundary iff no other cell face connects the same vertices
\* (faces are numbered cell by cell; only faces with the same lowest vertex are compared)
FaceNo(M, k) == LET f == Len(Faces[M.ct]) IN <<((k - 1) \div f) + 1, ((k - 1) % f) + 1>>
NumFaces(M) == Len(M.C) * Len(Faces[M.ct])
FaceSets(M) == TLCEval([k \in 1..NumFaces(M) |-> LET id == FaceNo(M, k) IN ToSet(FaceVerts(M, id[1], id[2]))])
\* the number of faces with the same vertices, for every face
Mult(M) ==
  LET S == FaceSets(M)
      low == TLCEval([k \in 1..NumFaces(M) |-> Min(S[k])])
      bucket == TLCEval([v \in {low[k] : k \in 1..NumFaces(M)} |-> {k \in 1..NumFaces(M) : low[k] = v}])
  IN TLCEval([k \in 1..NumFaces(M) |-> Cardinality({o \in bucket[low[k]] : S[o] = S[k]})])
BoundaryIds(M) == LET n == Mult(M) IN TLCEval({FaceNo(M, k) : k \in {k \in 1..NumFaces(M) : n[k] = 1}})
BoundaryVerts(M) == UNION {ToSet(FaceVerts(M, id[1], id[2])) : id \in BoundaryIds(M)}
\* a relation that is a bijection between its first and second components
Bij(R) == LET n == Cardinality(R) IN n = Cardinality({r[1] : r \in R}) /\ n = Cardinality({r[2] : r \in R})
BagEq(s, t) == Len(s) = Len(t) /\ \A x \in ToSet(s) : Count(s, x) = Count(t, x)

(* --------------------------- operations ----------------------------------- *)
\* cells are kept in the order of list; N is M restricted to them, up to the names of vertices
KeepRel(M, list, N) ==
  /\ N.ct = M.ct /\ WellFormed(N) /\ Len(N.C) = Len(list)
  /\ LET R == UNION {{<<M.C[list[i] + 1][j], N.C[i][j]>> : j \in Dom(N.C[i])} : i \in Dom(list)} IN
       /\ Bij(R) /\ \A r \in R : P(N, r[2]) = P(M, r[1])
  /\ AllUsed(N)

\* the boundary faces as cells of their own, in any order
SurfaceRel(M, N) ==
  LET B == BoundaryIds(M)
      Co(K, c) == [i \in Dom(c) |-> P(K, c[i])]
      want == SetToSeq({<<id, Co(M, FaceVerts(M, id[1], id[2]))>> : id \in B})
  IN /\ N.ct = FaceType[M.ct] /\ WellFormed(N) /\ AllUsed(N)
     /\ Len(N.V) = Cardinality(BoundaryVerts(M))
     /\ BagEq(TLCEval([i \in Dom(want) |-> want[i][2]]), TLCEval([k \in Dom(N.C) |-> Co(N, N.C[k])]))

\* uniform refinement of triangles: four children per triangle
Rot(t) == {t, <<t[2], t[3], t[1]>>, <<t[3], t[1], t[2]>>}
Sorted2(a, b) == IF a <= b THEN <<a, b>> ELSE <<b, a>>
RefineRel(M, N) ==
  /\ M.ct = "tri3" /\ N.ct = "tri3" /\ WellFormed(N) /\ Len(N.C) = 4 * Len(M.C)
  /\ LET Six(c) == {<<c[1],c[1]>>, <<c[2],c[2]>>, <<c[3],c[3]>>, <<c[1],c[2]>>, <<c[2],c[3]>>, <<c[3],c[1]>>}
         At(lab, n) == VAdd(P(M, lab[1]), P(M, lab[2])) = VScale(2, P(N, n))
         \* label of node n of a child of cell c; <<>> if it is none of the six points
         Lab(c, n) == IF \E q \in Six(c) : At(q, n) THEN LET q == CHOOSE q \in Six(c) : At(q, n) IN Sorted2(q[1], q[2]) ELSE <<>>
         Kids(p) == {4 * (p - 1) + j : j \in 1..4}
         LabCell(p, k) == [j \in 1..3 |-> Lab(M.C[p], N.C[k][j])]
         Want(c) == LET a == <<c[1],c[1]>> b == <<c[2],c[2]>> d == <<c[3],c[3]>>
                        ab == Sorted2(c[1],c[2]) bd == Sorted2(c[2],c[3]) da == Sorted2(c[3],c[1])
                    IN {<<a,ab,da>>, <<ab,b,bd>>, <<da,bd,d>>, <<ab,bd,da>>}
     IN /\ \A p \in Dom(M.C) :
             LET got == {LabCell(p, k) : k \in Kids(p)} IN
             Cardinality(got) = 4 /\ \A w \in Want(M.C[p]) : \E g \in got : g \in Rot(w)
        /\ LET R == UNION {UNION {{<<Lab(M.C[p], N.C[k][j]), N.C[k][j]>> : j \in 1..3} : k \in Kids(p)} : p \in Dom(M.C)}
           IN Bij(R)
  /\ AllUsed(N)

\* conversion to a higher-order type of the same shape: one node per distinct label
Label(cell, par) == SortSeq([i \in Dom(par) |-> cell[par[i] + 1]], LAMBDA a, b : a < b)
SumVec(M, lab) == FoldSeq(LAMBDA v, acc : VAdd(P(M, v), acc), [i \in Dom(M.V[1]) |-> 0], lab)
EnrichRel(M, N) ==
  LET par == NodeParents[N.ct] IN
  /\ WellFormed(N) /\ Len(N.C) = Len(M.C)
  /\ LET R == UNION {{<<Label(M.C[k], par[j]), N.C[k][j]>> : j \in Dom(par)} : k \in Dom(M.C)} IN
       /\ Bij(R)
       /\ \A r \in R : VScale(Len(r[1]), P(N, r[2])) = SumVec(M, r[1])
  /\ \A i \in (0..(Len(N.V) - 1)) \ Used(N) : \E j \in (0..(Len(M.V) - 1)) \ Used(M) : P(M, j) = P(N, i)
\* back to the linear type: the corner nodes of every cell
ReduceRel(M, N) ==
  /\ WellFormed(N) /\ Len(N.C) = Len(M.C) /\ AllUsed(N)
  /\ LET R == UNION {{<<M.C[k][j], N.C[k][j]>> : j \in Dom(N.C[k])} : k \in Dom(M.C)} IN
       Bij(R) /\ \A r \in R : P(N, r[2]) = P(M, r[1])
\* quadrilaterals (convex or concave, positively oriented) to two triangles each
Quad2(M, c) == Tri2(P(M,c[1]), P(M,c[2]), P(M,c[3])) + Tri2(P(M,c[1]), P(M,c[3]), P(M,c[4]))
SplitRel(M, N) ==
  /\ WellFormed(N) /\ N.V = M.V /\ Len(N.C) = 2 * Len(M.C)
  /\ \A k \in Dom(M.C) :
       LET s == N.C[2 * k - 1] t == N.C[2 * k]
           As == Tri2(P(N,s[1]), P(N,s[2]), P(N,s[3])) At == Tri2(P(N,t[1]), P(N,t[2]), P(N,t[3]))
       IN /\ Verts(s) \cup Verts(t) = Verts(M.C[k]) /\ Cardinality(Verts(s) \cap Verts(t)) = 2
          /\ As > 0 /\ At > 0 /\ As + At = Quad2(M, M.C[k])
\* hexahedra (parallelepipeds) to tetrahedra on the same vertices
Hex6(M, c) == 6 * Det3(VSub(P(M,c[2]), P(M,c[1])), VSub(P(M,c[4]), P(M,c[1])), VSub(P(M,c[5]), P(M,c[1])))
TetOf(M, t) == Tet6(P(M,t[1]), P(M,t[2]), P(M,t[3]), P(M,t[4]))
ConformingTets(N) ==     \* every triangle has at most two cells around it
  LET n == Mult(N) IN \A k \in Dom(n) : n[k] <= 2
HexToTetRel(M, N) ==
  /\ WellFormed(N) /\ N.V = M.V
  /\ \A t \in Dom(N.C) : TetOf(N, N.C[t]) > 0 /\ \E k \in Dom(M.C) : Verts(N.C[t]) \subseteq Verts(M.C[k])
  /\ \A k \in Dom(M.C) : SumOver(LAMBDA t : TetOf(N, N.C[t]), {t \in Dom(N.C) : Verts(N.C[t]) \subseteq Verts(M.C[k])}) = Hex6(M, M.C[k])
  /\ ConformingTets(N)
  /\ LET MB == {ToSet(FaceVerts(M, b[1], b[2])) : b \in BoundaryIds(M)} IN
     \A id \in BoundaryIds(N) : \E b \in MB : ToSet(FaceVerts(N, id[1], id[2])) \subseteq b
Enriched == {<<"tri3","tri6">>, <<"quad4","quad9">>, <<"tet4","tet10">>, <<"tet4","tet20">>, <<"hex8","hex20">>, <<"hex8","hex27">>}
ConvertRel(M, N) ==
  IF <<M.ct, N.ct>> \in Enriched THEN EnrichRel(M, N)
  ELSE IF <<M.ct, N.ct>> = <<"tet10", "tet4">> THEN ReduceRel(M, N)
  ELSE IF <<M.ct, N.ct>> = <<"quad4", "tri3">> THEN SplitRel(M, N)
  ELSE <<M.ct, N.ct>> = <<"hex8", "tet4">> /\ HexToTetRel(M, N)

\* permutations: target[i] = source[p[i]], 0-based
IsPerm(p) == ToSet(p) = 0..(Len(p) - 1)
ApplyPerm(p, s) == [i \in Dom(p) |-> s[p[i] + 1]]
InvPerm(p) == [i \in Dom(p) |-> (CHOOSE j \in Dom(p) : p[j] = i - 1) - 1]
ReorderRel(M, N, vp, cp) ==
  /\ N.ct = M.ct /\ IsPerm(vp) /\ IsPerm(cp) /\ Len(vp) = Len(M.V) /\ Len(cp) = Len(M.C)
  /\ N.V = ApplyPerm(vp, M.V)
  /\ LET inv == InvPerm(vp) IN N.C = [k \in Dom(cp) |-> [j \in Dom(M.C[cp[k] + 1]) |-> inv[M.C[cp[k] + 1][j] + 1]]]
\* Cuthill-McKee order of a symmetric pattern given by its lanes
CuthillMcKee(lanes, cm) ==
  LET n == Len(lanes)
      Deg(v) == Len(lanes[v + 1])
      Nb(v) == ToSet(lanes[v + 1])
      Pos(v) == CHOOSE i \in 1..n : cm[i] = v
      \* the position of the first neighbour already numbered before position i, or 0
      Parent == TLCEval([i \in 1..n |-> LET S == {j \in 1..(i - 1) : cm[j] \in Nb(cm[i])} IN IF S = {} THEN 0 ELSE Min(S)])
  IN /\ Len(cm) = n /\ IsPerm(cm)
     /\ \A i \in 1..n :
          IF Parent[i] = 0
          THEN \* a new component starts: nothing numbered so far has a later neighbour
               \A j \in 1..(i - 1) : \A w \in Nb(cm[j]) : Pos(w) < i
          ELSE \* breadth first, neighbours of one vertex by increasing degree
               \A j \in 1..(i - 1) : Parent[j] <= Parent[i] /\ (Parent[j] = Parent[i] => Deg(cm[j]) <= Deg(cm[i]))
TranslateRel(M, N, t) == N.ct = M.ct /\ N.C = M.C /\ N.V = [i \in Dom(M.V) |-> VAdd(M.V[i], t)]

(* ------------------------ conforming tilings ------------------------------ *)
\* size of a cell in units that make every type integral (2 x area, 6 x volume); 0 if not of the affine form
Par4(M, c) == VSub(P(M,c[2]), P(M,c[1])) = VSub(P(M,c[3]), P(M,c[4]))
ParHex(M, c) == LET e(i, j) == VSub(P(M, c[j]), P(M, c[i])) IN
  /\ e(1,2) = e(4,3) /\ e(1,2) = e(5,6) /\ e(1,2) = e(8,7)
  /\ e(1,4) = e(5,8) /\ e(1,5) = e(4,8)
CellSize(M, c) ==
  CASE M.ct = "tri3" -> Tri2(P(M,c[1]), P(M,c[2]), P(M,c[3]))
    [] M.ct = "quad4" -> IF Par4(M, c) THEN Quad2(M, c) ELSE 0
    [] M.ct = "tet4" -> TetOf(M, c)
    [] M.ct = "hex8" -> IF ParHex(M, c) THEN Hex6(M, c) ELSE 0
Unit(ct) == IF ct \in {"tri3", "quad4"} THEN 2 ELSE 6
\* M tiles the box lo..hi with count cells of equal size, conformingly
Tiles(M, lo, hi, count) ==
  LET box == FoldSeq(LAMBDA i, acc : acc * (hi[i] - lo[i]), Unit(M.ct), [i \in Dom(lo) |-> i]) IN
  /\ WellFormed(M) /\ AllUsed(M) /\ Cardinality(ToSet(M.V)) = Len(M.V)
  /\ \A v \in ToSet(M.V) : \A i \in Dom(v) : lo[i] <= v[i] /\ v[i] <= hi[i]
  /\ Len(M.C) = count
  /\ \A k \in Dom(M.C) : CellSize(M, M.C[k]) * count = box /\ CellSize(M, M.C[k]) > 0
  /\ LET sets == FaceSets(M)
         n == Mult(M)
         OnBox(s) == \E i \in Dom(lo) : (\A v \in s : P(M, v)[i] = lo[i]) \/ (\A v \in s : P(M, v)[i] = hi[i])
     IN \A k \in Dom(n) : IF OnBox(sets[k]) THEN n[k] = 1 ELSE n[k] = 2
\* every cell has the given extent along each axis (boxes only)
Extents(M, h) == \A k \in Dom(M.C) : \A i \in Dom(h) :
   LET S == {P(M, v)[i] : v \in Verts(M.C[k])} IN Max(S) - Min(S) = h[i]
Empty(M) == M.V = <<>> /\ M.C = <<>>
Prod(s) == FoldSeq(LAMBDA a, acc : a * acc, 1, s)
\* procedural generators: unit length L, units per axis u, cells per unit r
ProcRel(kind, a, M) ==
  CASE kind = "rect_quad" ->
        LET u == <<a[2], a[3]>> r == a[4] lo == <<a[5], a[6] - a[1] * a[3]>> hi == <<a[5] + a[1] * a[2], a[6]>> IN
        M.ct = "quad4" /\ (IF r = 0 \/ Prod(u) = 0 THEN Empty(M)
                           ELSE Tiles(M, lo, hi, Prod(u) * r * r) /\ Extents(M, <<a[1] \div r, a[1] \div r>>))
    [] kind = "rect_hex" ->
        LET u == <<a[2], a[3], a[4]>> r == a[5] h == a[1] \div r IN
        M.ct = "hex8" /\ (IF r = 0 \/ Prod(u) = 0 THEN Empty(M)
                          ELSE Tiles(M, <<0,0,0>>, VScale(a[1], u), Prod(u) * r * r * r) /\ Extents(M, <<h, h, h>>))
    [] kind = "rect_tet" ->
        LET u == <<a[2], a[3], a[4]>> r == a[5] IN
        M.ct = "tet4" /\ (IF r = 0 \/ Prod(u) = 0 THEN Empty(M)
                          ELSE Tiles(M, <<0,0,0>>, VScale(a[1], u), 12 * Prod(u) * r * r * r))
    [] kind = "unit_quad" -> M.ct = "quad4" /\ (IF a[1] = 0 THEN Empty(M) ELSE
        Tiles(M, <<0,0>>, <<a[2],a[2]>>, a[1] * a[1]) /\ Extents(M, <<a[2] \div a[1], a[2] \div a[1]>>))
    [] kind = "unit_tri" -> M.ct = "tri3" /\ (IF a[1] = 0 THEN Empty(M) ELSE
        Tiles(M, <<0,0>>, <<a[2],a[2]>>, 2 * a[1] * a[1]) /\ Extents(M, <<a[2] \div a[1], a[2] \div a[1]>>))
    [] kind = "unit_hex" -> M.ct = "hex8" /\ (IF a[1] = 0 THEN Empty(M) ELSE
        Tiles(M, <<0,0,0>>, <<a[2],a[2],a[2]>>, a[1] * a[1] * a[1]) /\ LET h == a[2] \div a[1] IN Extents(M, <<h, h, h>>))
    [] kind = "unit_tet" -> M.ct = "tet4" /\ (IF a[1] = 0 THEN Empty(M) ELSE
        Tiles(M, <<0,0,0>>, <<a[2],a[2],a[2]>>, 12 * a[1] * a[1] * a[1]))
=============================================================================
