-------------------------------- MODULE MC_Sdf ---------------------------------
(* Design of the grids: from a box and a cell size to numbers of cells, to the      *)
(* lattice, to the part of it that meets a shape. Numbers are rational with          *)
(* denominator `q`; `Bug` selects a wrong variant.                                   *)
EXTENDS Sdf, TLC, Json
CONSTANTS Mode, Exts, Hs, Shapes, Bug, Emit
VARIABLES c, pc
mvars == <<c, pc>>
Box(lo, hi) == <<"b", lo, hi>>
Circ(a, r) == <<"c", a, r>>
Basic == {Circ(<<0, 0>>, 1), Circ(<<1, 0 - 1>>, 2), Box(<<0 - 1, 0>>, <<1, 3>>), Box(<<2, 0 - 2>>, <<4, 0 - 1>>), Circ(<<0 - 2, 2>>, 1)}
All == Basic \cup {<<"u", a, b>> : a \in Basic, b \in Basic} \cup (IF Shapes = "deep" THEN {<<"u", <<"u", a, b>>, d>> : a \in Basic, b \in Basic, d \in Basic} ELSE {})
MInit == /\ pc = "start"
         /\ \/ Mode = "grid" /\ c \in [ex : Exts, ey : Exts, h : Hs]
            \/ Mode = "shape" /\ c \in [S : All, h : Hs]
MNext == pc = "start" /\ pc' = "end" /\ UNCHANGED c
MSpec == MInit /\ [][MNext]_mvars
Ceil(a, b) == (a + b - 1) \div b
(* ---- the algorithm for a box from (0, 0) to (ex, ey), in units of 1/100 ---- *)
EX == (IF Bug = "tight" THEN 100 ELSE 102) * c.ex
EY == (IF Bug = "tight" THEN 100 ELSE 102) * c.ey
HH == 25 * c.h
NX0 == Ceil(EX, HH)
NY0 == Ceil(EY, HH)
\* the smaller of EX / NX0 and EY / NY0 as CN / CD
XSmaller == EX * NY0 <= EY * NX0
CN == IF XSmaller THEN EX ELSE EY
CD == IF XSmaller THEN NX0 ELSE NY0
NX == IF Bug = "floor" THEN (EX * CD) \div CN ELSE Ceil(EX * CD, CN)
NY == IF Bug = "floor" THEN (EY * CD) \div CN ELSE Ceil(EY * CD, CN)
\* coordinates in units of 1/1000: 500 ex - 10 NX CN / (2 CD) + 10 i CN / CD
CX(i) == (1000 * c.ex * CD - 10 * NX * CN + 20 * i * CN) \div (2 * CD)
CY(j) == (1000 * c.ey * CD - 10 * NY * CN + 20 * j * CN) \div (2 * CD)
Vtx(k) == <<CX(k % (NX + 1)), CY(k \div (NX + 1))>>
CellAt(k) == LET i == k % NX  j == k \div NX  v == (NX + 1) * j + i IN <<v, v + 1, v + NX + 2, v + NX + 1>>
Lattice == [V |-> [k \in 1..((NX + 1) * (NY + 1)) |-> Vtx(k - 1)], C |-> [k \in 1..(NX * NY) |-> CellAt(k - 1)]]
GridFits == (Mode = "grid" /\ pc = "end") => GridOk(Lattice, <<0, 0>>, <<1000 * c.ex, 1000 * c.ey>>, c.h)
\* the cells are not needlessly small
NotTiny == (Mode = "grid" /\ pc = "end") => 2 * CN >= Min({HH, EX, EY}) * CD
(* ---------------------------------- shapes ----------------------------------- *)
PS == {<<500 * i, 500 * j>> : i, j \in (0 - 8)..8}
SignIsMembership == (Mode = "shape" /\ pc = "end") => \A p \in PS : (Dist(c.S, p) <= 0) = Has(c.S, p)
Lipschitz == (Mode = "shape" /\ pc = "end") => \A p \in PS : \A d \in {<<500, 0>>, <<0, 500>>, <<500, 500>>} :
   Abs(Dist(c.S, p) - Dist(c.S, <<p[1] + d[1], p[2] + d[2]>>)) <= Norm(d[1], d[2]) + 3
BoxHolds == (Mode = "shape" /\ pc = "end") => \A p \in PS : Has(c.S, p) => \A i \in 1..2 : K * Tight(c.S).lo[i] <= p[i] /\ p[i] <= K * Tight(c.S).hi[i]
EmitInv == (Emit /\ pc = "end") => PrintT("CASE " \o ToJson(c))
=============================================================================
