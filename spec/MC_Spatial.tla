----------------------------- MODULE MC_Spatial -----------------------------
(* The indexed search: boxes are visited in the order of their distance, the    *)
(* first box bounds the candidates, and the first element containing the point  *)
(* ends the search.  The search returns an element at the smallest distance.    *)
EXTENDS Spatial, Json
CONSTANTS Ct, N, MinCells, MaxCells, Q, Sym, Emit
VARIABLES M, p, todo, d2max, best, done
vars == <<M, p, todo, d2max, best, done>>
Dim == IF Ct = "tri3" THEN 2 ELSE 3
Grid(lo, hi) == [1..Dim -> lo..hi]
NV == IF Ct = "tet4" THEN 4 ELSE 3
BoxOf(k) == Bounds(CellVerts(M, k))
Code(q) == FoldSeq(LAMBDA x, acc : acc * (N + 1) + x, 0, q)
Shapes == {v \in [1..NV -> Grid(0, N)] : Sym => \A i \in 1..(NV - 1) : Code(v[i]) <= Code(v[i + 1])}    \* up to the order of vertices
Soups == UNION {[1..c -> Shapes] : c \in MinCells..MaxCells}
OfSoup(s) == [ct |-> Ct, V |-> FlattenSeq(s), C |-> [k \in Dom(s) |-> [i \in 1..NV |-> NV * (k - 1) + i - 1]]]
MInit ==
  /\ \E s \in Soups : M = OfSoup(s)
  /\ p \in Grid(-Q, N + Q)
  /\ todo = Dom(M.C) /\ d2max = -1 /\ best = 0 /\ done = FALSE
Step ==
  /\ ~done
  /\ IF todo = {} THEN done' = TRUE /\ UNCHANGED <<M, p, todo, d2max, best>>
     ELSE \E k \in {k \in todo : \A j \in todo : Near2(BoxOf(k), p) <= Near2(BoxOf(j), p)} :
            LET lim == IF d2max < 0 THEN Far2(BoxOf(k), p) ELSE d2max
                c == ClosestIn(M, k, p).dist IN
            /\ d2max' = lim /\ todo' = todo \ {k} /\ UNCHANGED <<M, p>>
            /\ IF Near2(BoxOf(k), p) > lim THEN done' = TRUE /\ UNCHANGED best
               ELSE /\ best' = IF best = 0 THEN k ELSE IF RLe(c, ClosestIn(M, best, p).dist) THEN k ELSE best
                    /\ done' = (c.n = 0)
MNext == Step
MSpec == MInit /\ [][MNext]_vars
SearchRight == done => IF Len(M.C) = 0 THEN best = 0 ELSE best - 1 \in Nearest(M, p)
\* the closest point is no farther than any vertex and any point of the grid in the element; it is in the box
Points == Grid(0, N)
Hits(k, q) == ClosestIn(M, k, q).dist.n = 0
ClosestIsClosest ==
  todo = Dom(M.C) => \A k \in Dom(M.C) : LET c == ClosestIn(M, k, p)  b == BoxOf(k) IN
    /\ c.pt.d > 0 /\ c.dist.d > 0 /\ c.dist.n >= 0
    /\ \A i \in Dom(CellVerts(M, k)) : LET w == VSub(p, CellVerts(M, k)[i]) IN c.dist.n <= Dot(w, w) * c.dist.d
    /\ \A q \in Points : Hits(k, q) => LET w == VSub(p, q) IN c.dist.n <= Dot(w, w) * c.dist.d
    /\ \A j \in 1..Dim : b.lo[j] * c.pt.d <= c.pt.n[j] /\ c.pt.n[j] <= b.hi[j] * c.pt.d
    \* consistent: the distance to the point is the distance
    /\ LET w == VSub(VScale(c.pt.d, p), c.pt.n) IN Dot(w, w) * c.dist.d = c.dist.n * c.pt.d * c.pt.d
    \* the midpoint of any two points of the element is no closer either (convexity)
    /\ Near2(b, p) * c.dist.d <= c.dist.n /\ c.dist.n <= Far2(b, p) * c.dist.d
EmitInv == done /\ Emit => PrintT("CASE " \o ToJson([ct |-> Ct, V |-> M.V, C |-> M.C, p |-> p]))
=============================================================================
