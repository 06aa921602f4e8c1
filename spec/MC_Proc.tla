-------------------------------- MODULE MC_Proc ------------------------------
(* Design check of the tiling relation: the canonical tilings satisfy it and  *)
(* tilings with a missing, doubled, detached or inverted cell do not.         *)
EXTENDS Mesh
CONSTANTS MaxN
VARIABLES n
Vid2(i, j) == i * (n[2] + 1) + j
V2 == [k \in 1..((n[1] + 1) * (n[2] + 1)) |-> << 2 * ((k - 1) \div (n[2] + 1)), 2 * ((k - 1) - (n[2] + 1) * ((k - 1) \div (n[2] + 1))) >>]
Cell2(k) == LET i == (k - 1) \div n[2] j == (k - 1) - n[2] * i IN <<Vid2(i, j), Vid2(i + 1, j), Vid2(i + 1, j + 1), Vid2(i, j + 1)>>
Quads == [ct |-> "quad4", V |-> V2, C |-> [k \in 1..(n[1] * n[2]) |-> Cell2(k)]]
Tris == [ct |-> "tri3", V |-> V2, C |-> [k \in 1..(2 * n[1] * n[2]) |-> LET c == Cell2((k + 1) \div 2) IN
           IF 2 * (k \div 2) = k THEN <<c[1], c[2], c[3]>> ELSE <<c[1], c[3], c[4]>>]]
Vid3(i, j, k) == (i * (n[2] + 1) + j) * (n[3] + 1) + k
V3 == [m \in 1..((n[1] + 1) * (n[2] + 1) * (n[3] + 1)) |->
        LET q == (m - 1) \div (n[3] + 1) IN << 2 * (q \div (n[2] + 1)), 2 * (q - (n[2] + 1) * (q \div (n[2] + 1))), 2 * (m - 1 - (n[3] + 1) * q) >>]
Hexes == [ct |-> "hex8", V |-> V3, C |-> [m \in 1..(n[1] * n[2] * n[3]) |->
   LET q == (m - 1) \div n[3] k == m - 1 - n[3] * q i == q \div n[2] j == q - n[2] * i IN
   <<Vid3(i,j,k), Vid3(i+1,j,k), Vid3(i+1,j+1,k), Vid3(i,j+1,k), Vid3(i,j,k+1), Vid3(i+1,j,k+1), Vid3(i+1,j+1,k+1), Vid3(i,j+1,k+1)>>]]
MInit == n \in [1..3 -> 1..MaxN]
MSpec == MInit /\ [][UNCHANGED n]_n
Hi2 == <<2 * n[1], 2 * n[2]>>
Hi3 == <<2 * n[1], 2 * n[2], 2 * n[3]>>
QuadTiles == Tiles(Quads, <<0,0>>, Hi2, n[1] * n[2]) /\ Extents(Quads, <<2,2>>)
TriTiles == Tiles(Tris, <<0,0>>, Hi2, 2 * n[1] * n[2])
HexTiles == Tiles(Hexes, <<0,0,0>>, Hi3, n[1] * n[2] * n[3]) /\ Extents(Hexes, <<2,2,2>>)
Inv(c) == <<c[1], c[4], c[3], c[2]>>
Wrong == /\ ~Tiles([Quads EXCEPT !.C[1] = Inv(@)], <<0,0>>, Hi2, n[1] * n[2])
         /\ ~Tiles([Quads EXCEPT !.V = Append(@, <<1,1>>)], <<0,0>>, Hi2, n[1] * n[2])
         /\ (n[1] * n[2] > 1 => ~Tiles([Quads EXCEPT !.C[1] = Quads.C[2]], <<0,0>>, Hi2, n[1] * n[2]))
         /\ ~Tiles([Hexes EXCEPT !.C = Append(@, Hexes.C[1])], <<0,0,0>>, Hi3, n[1] * n[2] * n[3] + 1)
         \* a detached cell: its own copies of the vertices
         /\ (n[1] * n[2] > 1 => ~Tiles([Quads EXCEPT !.V = @ \o [i \in 1..4 |-> P(Quads, Quads.C[1][i])],
                                                    !.C[1] = [i \in 1..4 |-> Len(Quads.V) + i - 1]], <<0,0>>, Hi2, n[1] * n[2]))
=============================================================================
