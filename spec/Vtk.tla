-------------------------------- MODULE Vtk ---------------------------------
(* Exporting a mesh with attributes for visualisation.                         *)
(* mesh [ct, D, V, C, zero]: cell type, dimension, points (opaque values), cells *)
(* (0-based nodes).  An addition [at, kind, name, nc, data, zero] attaches an  *)
(* attribute array; the data set is one point per vertex, one cell per cell.    *)
EXTENDS Mesh

(* ----------------- the node order of the visualisation format -------------- *)
\* every node is the centre of a set of corners
QTriV == << {0},{1},{2}, {0,1},{1,2},{2,0} >>
BQuadV == << {0},{1},{2},{3}, {0,1},{1,2},{2,3},{3,0}, {0,1,2,3} >>
QTetV == << {0},{1},{2},{3}, {0,1},{1,2},{0,2},{0,3},{1,3},{2,3} >>
QHexV == << {0},{1},{2},{3},{4},{5},{6},{7}, {0,1},{1,2},{2,3},{3,0}, {4,5},{5,6},{6,7},{7,4}, {0,4},{1,5},{2,6},{3,7} >>
LinV(n) == [i \in 1..n |-> {i - 1}]
NodesOf == [Line |-> LinV(2), Triangle |-> LinV(3), Quad |-> LinV(4), Tetra |-> LinV(4), Hexahedron |-> LinV(8),
            QuadraticTriangle |-> QTriV, BiquadraticQuad |-> BQuadV, QuadraticTetra |-> QTetV, QuadraticHexahedron |-> QHexV]
\* cell types without a counterpart are represented by a smaller one
CellTypeOf == [seg2 |-> "Line", seg2s |-> "Line", tri3 |-> "Triangle", tri3s |-> "Triangle", tri6 |-> "QuadraticTriangle",
               quad4 |-> "Quad", quad9 |-> "BiquadraticQuad", tet4 |-> "Tetra", hex8 |-> "Hexahedron", tet10 |-> "QuadraticTetra",
               tet20 |-> "Tetra", hex20 |-> "QuadraticHexahedron", hex27 |-> "QuadraticHexahedron"]
Types == DOMAIN CellTypeOf
ParentsOf(ct) == IF ct \in DOMAIN NodeParents THEN NodeParents[ct] ELSE Singles(NumNodes[ct])
\* position (1-based) of the node of the cell type with the given corners
AtCorners(ct, S) == CHOOSE j \in Dom(ParentsOf(ct)) : ToSet(ParentsOf(ct)[j]) = S /\ Len(ParentsOf(ct)[j]) = Cardinality(S)
OrderTable == [ct \in Types |-> [i \in Dom(NodesOf[CellTypeOf[ct]]) |-> AtCorners(ct, NodesOf[CellTypeOf[ct]][i])]]
VtkCell(ct, c) == [i \in Dom(OrderTable[ct]) |-> c[OrderTable[ct][i]]]

(* ------------------------------ attributes --------------------------------- *)
Count1(mesh, at) == IF at = "point" THEN Len(mesh.V) ELSE Len(mesh.C)
Valid(mesh, a) == Len(a.data) = a.nc * Count1(mesh, a.at) /\ (a.kind = "vectors" => a.nc <= 3)
\* vectors always have three components
Padded(mesh, a) ==
  IF a.kind = "scalars" THEN a.data
  ELSE [i \in 1..(3 * Len(mesh.V)) |-> LET p == (i - 1) \div 3  k == (i - 1) % 3 IN IF k < a.nc THEN a.data[a.nc * p + k + 1] ELSE a.zero]
Shown(mesh, a) == [name |-> a.name, nc |-> IF a.kind = "vectors" THEN 3 ELSE a.nc, data |-> Padded(mesh, a)]
Attached(adds, at) == SelectSeq(adds, LAMBDA a : a.at = at)
Points(mesh) == [i \in 1..(3 * Len(mesh.V)) |-> LET p == (i - 1) \div 3  k == (i - 1) % 3 IN IF k < mesh.D THEN mesh.V[p + 1][k + 1] ELSE mesh.zero]
\* the data set: everything but the kinds of attributes
Built(mesh, adds) ==
  [points |-> Points(mesh),
   cells |-> [k \in Dom(mesh.C) |-> VtkCell(mesh.ct, mesh.C[k])],
   types |-> [k \in Dom(mesh.C) |-> CellTypeOf[mesh.ct]],
   pa |-> [i \in Dom(Attached(adds, "point")) |-> Shown(mesh, Attached(adds, "point")[i])],
   ca |-> [i \in Dom(Attached(adds, "cell")) |-> Shown(mesh, Attached(adds, "cell")[i])]]
=============================================================================
