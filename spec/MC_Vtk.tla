------------------------------ MODULE MC_Vtk --------------------------------
(* The builder: a mesh, a history of additions of which some do not fit, a     *)
(* title, and data sets built in between.                                       *)
EXTENDS Vtk, Json
CONSTANTS MaxV, MaxC, MaxOps, Emit
VARIABLES mesh, adds, hist
vars == <<mesh, adds, hist>>
Cells(ct, nv) == IF nv < NumNodes[ct] THEN {} ELSE {[i \in 1..NumNodes[ct] |-> (i + s) % nv] : s \in {0, 1}}
SmallTypes == {"tri3", "seg2s", "quad4"}
MInit ==
  /\ adds = <<>> /\ hist = <<>>
  /\ \E ct \in SmallTypes, D \in 1..3, nv \in 0..MaxV, nc \in 0..MaxC :
       \E C \in [1..nc -> Cells(ct, nv)] : mesh = [ct |-> ct, D |-> D, V |-> [i \in 1..nv |-> [k \in 1..D |-> 10 * i + k]], C |-> C, zero |-> 0]
Sizes(at, nc) == {n \in {nc * Count1(mesh, at) - 1, nc * Count1(mesh, at), nc * Count1(mesh, at) + 1, nc} : n >= 0}
Add ==
  /\ Len(hist) < MaxOps
  /\ \E s \in {<<"point","vectors",k>> : k \in 1..4} \cup {<<w,"scalars",k>> : w \in {"point","cell"}, k \in 1..2} : \E a \in {[at |-> s[1], kind |-> s[2], name |-> "a", nc |-> s[3], data |-> [i \in 1..n |-> i], zero |-> 0] : n \in Sizes(s[1], s[3])} :
       /\ adds' = IF Valid(mesh, a) THEN Append(adds, a) ELSE adds
       /\ hist' = Append(hist, a)
  /\ UNCHANGED mesh
MNext == Add
MSpec == MInit /\ [][MNext]_vars
\* the tables are tables
OrdersFit == \A ct \in Types :
  LET o == OrderTable[ct] IN
  /\ Len(o) = Len(NodesOf[CellTypeOf[ct]]) /\ Cardinality(ToSet(o)) = Len(o) /\ \A i \in Dom(o) : o[i] \in 1..NumNodes[ct]
  /\ \A i \in Dom(o) : ToSet(ParentsOf(ct)[o[i]]) = NodesOf[CellTypeOf[ct]][i]
ParentsFit == \A ct \in Types : Len(ParentsOf(ct)) = NumNodes[ct]
B == Built(mesh, adds)
\* nothing is lost and nothing is invented: the original comes back from the data set
Recover ==
  /\ Len(B.points) = 3 * Len(mesh.V) /\ Len(B.cells) = Len(mesh.C)
  /\ mesh.V = [p \in Dom(mesh.V) |-> [k \in 1..mesh.D |-> B.points[3 * (p - 1) + k]]]
  /\ \A p \in Dom(mesh.V) : \A k \in (mesh.D + 1)..3 : B.points[3 * (p - 1) + k] = 0
  /\ \A k \in Dom(mesh.C) : \A i \in Dom(B.cells[k]) : B.cells[k][i] = mesh.C[k][OrderTable[mesh.ct][i]]
  /\ Len(B.pa) + Len(B.ca) = Len(adds)
AttrsFit ==
  /\ \A i \in Dom(B.pa) : Len(B.pa[i].data) = B.pa[i].nc * Len(mesh.V)
  /\ \A i \in Dom(B.ca) : Len(B.ca[i].data) = B.ca[i].nc * Len(mesh.C)
  /\ \A i \in Dom(B.pa) : LET a == Attached(adds, "point")[i] IN
       a.kind = "vectors" => \A p \in Dom(mesh.V) : \A k \in 1..3 : B.pa[i].data[3 * (p - 1) + k] = (IF k <= a.nc THEN a.data[a.nc * (p - 1) + k] ELSE 0)
\* only additions of the right size count, in order
AddsRight == adds = SelectSeq(hist, LAMBDA a : Valid(mesh, a))
EmitInv == Len(hist) = MaxOps /\ Emit => PrintT("CASE " \o ToJson([ct |-> mesh.ct, D |-> mesh.D, C |-> mesh.C, nv |-> Len(mesh.V),
   ops |-> [i \in Dom(hist) |-> [at |-> hist[i].at, kind |-> hist[i].kind, nc |-> hist[i].nc, len |-> Len(hist[i].data)]]]))
=============================================================================
