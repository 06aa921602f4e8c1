------------------------------- MODULE MC_Views --------------------------------
(* Small meshes whose vertices are moved; what they show commutes with it.           *)
EXTENDS Views, Json
CONSTANTS MaxSteps, Cts, Emit
VARIABLES M, start, hist, old
mvars == <<M, start, hist, old>>
Pos(ct) == IF ct \in {"tri3", "tri6", "quad4", "quad9", "seg2"} THEN << <<0,0>>, <<2,0>>, <<3,4>>, <<-1,3>>, <<1,0>>, <<3,2>>, <<1,4>>, <<0,1>>, <<1,1>>, <<5,1>> >>
           ELSE << <<0,0,0>>, <<2,0,0>>, <<2,3,0>>, <<0,2,0>>, <<0,0,2>>, <<2,0,3>>, <<2,3,2>>, <<0,2,4>>, <<5,5,5>> >> \o [i \in 1..18 |-> <<i % 3, i % 5, i % 7>>]
Cell0(ct, s) == [i \in 1..NumNodes[ct] |-> (i - 1 + s) % Len(Pos(ct))]
MInit == /\ \E ct \in Cts, k \in 0..2 : M = [ct |-> ct, V |-> Pos(ct), C |-> [j \in 1..k |-> Cell0(ct, 2 * (j - 1))]]
         /\ start = M /\ hist = <<>> /\ old = M
D == Len(M.V[1])
E1(i) == [j \in 1..D |-> IF i = j THEN 3 ELSE 0 - 1]
Mats == {[i \in 1..D |-> [j \in 1..D |-> IF i = j THEN 2 ELSE 0]], [i \in 1..D |-> [j \in 1..D |-> IF j = (i % D) + 1 THEN 1 ELSE 0]]}
Do(h, N) == M' = N /\ old' = M /\ hist' = Append(hist, h) /\ UNCHANGED start
MNext == /\ Len(hist) < MaxSteps
         /\ \/ \E i \in 1..D : Do(<<"translate", E1(i)>>, Translated(M, E1(i))) \/ Do(<<"translated", E1(i)>>, Translated(M, E1(i)))
            \/ \E A \in Mats : Do(<<"map", A, E1(1)>>, Mapped(M, A, E1(1)))
            \/ \E k \in {1, 2} : Do(<<"all", k>>, Rotated(M, k))
            \/ \E i \in {0, Len(M.V) - 1} : Do(<<"poke", i, E1(D)>>, Poked(M, i, E1(D)))
MSpec == MInit /\ [][MNext]_mvars
LastOp == hist[Len(hist)]
Kept == M.C = start.C /\ Len(M.V) = Len(start.V)
\* cells and boxes move with the vertices
Commutes == (hist # <<>> /\ LastOp[1] \in {"translate", "translated"}) =>
  /\ CellsOf(M) = [k \in Dom(M.C) |-> [i \in Dom(CellOf(old, k)) |-> VAdd(CellOf(old, k)[i], LastOp[2])]]
  /\ M.C # <<>> => BoxOfPts(CornerPts(M)) = [s \in 1..2 |-> VAdd(BoxOfPts(CornerPts(old))[s], LastOp[2])]
BoxHolds == M.C # <<>> => LET b == BoxOfPts(CornerPts(M)) IN \A p \in CornerPts(M) : \A i \in Dom(p) : b[1][i] <= p[i] /\ p[i] <= b[2][i]
FacesInside == \A k \in Dom(M.C) : \A f \in Dom(Faces[M.ct]) : ToSet(FaceVerts(M, k, f)) \subseteq Verts(M.C[k])
EveryNodeOnAFace == \A k \in Dom(M.C) : M.ct \in {"tri3", "tri6", "quad4", "tet4", "tet10", "hex8", "hex20"} =>
  UNION {ToSet(FaceVerts(M, k, f)) : f \in Dom(Faces[M.ct])} = Verts(M.C[k])
EmitInv == (Emit /\ Len(hist) = MaxSteps) => PrintT("CASE " \o ToJson([ct |-> start.ct, V |-> start.V, C |-> start.C, ops |-> hist]))
=============================================================================
