--------------------------------- MODULE Views ---------------------------------
(* What a mesh shows of itself (C32): its cells, its faces, its bounding box, as      *)
(* functions of the vertices and the connectivity, while the vertices are moved.      *)
EXTENDS Mesh
NumCorners == [seg2 |-> 2, tri3 |-> 3, tri6 |-> 3, tri3s |-> 3, tri6s |-> 3, quad4 |-> 4, quad9 |-> 4, tet4 |-> 4, tet10 |-> 4, tet20 |-> 4, hex8 |-> 8, hex20 |-> 8, hex27 |-> 8]
LowerOf == [tri6 |-> 3, quad9 |-> 4, tet10 |-> 4, tet20 |-> 4]
\* the straight-sided cell with the corners of an element
CellOf(M, k) == [i \in 1..NumCorners[M.ct] |-> P(M, M.C[k][i])]
CellsOf(M) == [k \in Dom(M.C) |-> CellOf(M, k)]
CornerPts(M) == UNION {ToSet(CellOf(M, k)) : k \in Dom(M.C)}
BoxOfPts(S) == LET D == Len(CHOOSE p \in S : TRUE) IN << [i \in 1..D |-> Min({p[i] : p \in S})], [i \in 1..D |-> Max({p[i] : p \in S})] >>
FacesOfCell(M, k) == [f \in Dom(Faces[M.ct]) |-> FaceVerts(M, k, f)]
LowOf(M, k) == IF M.ct \in DOMAIN LowerOf THEN SubSeq(M.C[k], 1, LowerOf[M.ct]) ELSE <<>>
View(M) == [V |-> M.V, C |-> M.C, cells |-> CellsOf(M), iter |-> CellsOf(M), geo |-> CellsOf(M), num |-> Len(M.C), past |-> 0, fpast |-> 0,
            faces |-> [k \in Dom(M.C) |-> FacesOfCell(M, k)], each |-> [k \in Dom(M.C) |-> FacesOfCell(M, k)], low |-> [k \in Dom(M.C) |-> LowOf(M, k)]]
Shows(M, r) == /\ \A f \in DOMAIN View(M) : r[f] = View(M)[f]
               /\ (M.C # <<>> /\ M.ct # "seg2") => r.box = BoxOfPts(CornerPts(M))
\* moving the vertices
Affine(A, b, p) == [i \in Dom(p) |-> SumSeq([j \in Dom(p) |-> A[i][j] * p[j]]) + b[i]]
Translated(M, t) == [M EXCEPT !.V = [i \in Dom(M.V) |-> VAdd(M.V[i], t)]]
Mapped(M, A, b) == [M EXCEPT !.V = [i \in Dom(M.V) |-> Affine(A, b, M.V[i])]]
Rotated(M, k) == [M EXCEPT !.V = [i \in Dom(M.V) |-> M.V[((i - 1 + k) % Len(M.V)) + 1]]]
Poked(M, i, p) == [M EXCEPT !.V[i + 1] = p]
=============================================================================
