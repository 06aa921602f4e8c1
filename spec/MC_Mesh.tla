------------------------------ MODULE MC_Mesh -------------------------------
(* Design check: reference implementations of the operations satisfy the      *)
(* relations, the relations compose, and the tables of the cell types are     *)
(* geometrically right.  Also enumerates small histories for the real code.   *)
EXTENDS Mesh, Json
CONSTANTS NV, MaxC, MaxSteps, Emit, WithRefine
VARIABLES M, start, hist, last
mvars == <<M, start, hist, last>>

(* --------------------------- reference tables ----------------------------- *)
RTri == << <<-1,-1>>, <<1,-1>>, <<-1,1>> >>
RQuad == << <<-1,-1>>, <<1,-1>>, <<1,1>>, <<-1,1>> >>
RTet == << <<-1,-1,-1>>, <<1,-1,-1>>, <<-1,1,-1>>, <<-1,-1,1>> >>
RHex == << <<-1,-1,-1>>, <<1,-1,-1>>, <<1,1,-1>>, <<-1,1,-1>>, <<-1,-1,1>>, <<1,-1,1>>, <<1,1,1>>, <<-1,1,1>> >>
Base == [tri3 |-> RTri, tri6 |-> RTri, quad4 |-> RQuad, quad9 |-> RQuad, tet4 |-> RTet, tet10 |-> RTet, hex8 |-> RHex, hex20 |-> RHex, hex27 |-> RHex]
\* 24 times the node positions (24: common multiple of the parent counts)
RefPos(ct) == LET par == IF ct \in DOMAIN NodeParents THEN NodeParents[ct] ELSE Singles(NumNodes[ct]) IN
  [i \in Dom(par) |-> VScale(24 \div Len(par[i]), FoldSeq(LAMBDA k, acc : VAdd(Base[ct][k + 1], acc), [d \in Dom(Base[ct][1]) |-> 0], par[i]))]
\* outward: a positive multiple of the outward normal points away from every node not on the face
Outward3(ct, f) == LET X == RefPos(ct) t == Faces[ct][f]
                       a == X[t[1]+1] n(p) == Det3(VSub(X[t[2]+1], a), VSub(X[t[3]+1], a), VSub(p, a)) IN
  \A i \in Dom(X) : IF (i - 1) \in ToSet(t) THEN n(X[i]) = 0 ELSE n(X[i]) < 0
Outward2(ct, f) == LET X == RefPos(ct) t == Faces[ct][f]
                       a == X[t[1]+1] b == X[t[Len(t)]+1] IN
  \A i \in Dom(X) : LET v == Cross2(VSub(b, a), VSub(X[i], a)) IN IF (i - 1) \in ToSet(t) THEN v = 0 ELSE v > 0
\* the nodes of a face are consistent with the face type's own numbering
FaceNodes(ct, f) == LET X == RefPos(ct) t == Faces[ct][f] ft == FaceType[ct] IN
  LET par == CASE ft = "tri6s" -> Tri6P [] ft = "quad9s" -> Quad9P [] ft = "quad8s" -> SubSeq(Quad9P, 1, 8)
               [] ft \in {"seg3"} -> << <<0>>, <<0,2>>, <<2>> >> [] OTHER -> Singles(NumNodes[ft])
  IN \A i \in Dom(par) : VScale(Len(par[i]), X[t[i]+1]) = FoldSeq(LAMBDA k, acc : VAdd(X[t[k+1]+1], acc), [d \in Dom(X[1]) |-> 0], par[i])
ASSUME \A ct \in {"tri3","tri6","quad4","quad9"} : \A f \in Dom(Faces[ct]) : Outward2(ct, f) /\ FaceNodes(ct, f)
ASSUME \A ct \in {"tet4","tet10","hex8","hex20","hex27"} : \A f \in Dom(Faces[ct]) : Outward3(ct, f) /\ FaceNodes(ct, f)
ASSUME \A ct \in DOMAIN Base : Cardinality(ToSet(RefPos(ct))) = NumNodes[ct]

(* ------------------------ reference implementations ----------------------- *)
RefKeep(K, list) ==
  LET used == SortedSeq(UNION {Verts(K.C[list[i] + 1]) : i \in Dom(list)})
      new(v) == (CHOOSE i \in Dom(used) : used[i] = v) - 1
  IN [ct |-> K.ct, V |-> [i \in Dom(used) |-> P(K, used[i])], C |-> [i \in Dom(list) |-> LET c == K.C[list[i] + 1] IN [j \in Dom(c) |-> new(c[j])]]]
RefSurface(K) == LET b == SetToSeq(BoundaryIds(K)) IN
  RefKeep([ct |-> FaceType[K.ct], V |-> K.V, C |-> [i \in Dom(b) |-> FaceVerts(K, b[i][1], b[i][2])]], [i \in Dom(b) |-> i - 1])
LabMesh(ct, labs, pos(_), cells) ==      \* cells given by labels; one vertex per label
  LET seq == SetToSeq(labs) ix(q) == (CHOOSE i \in Dom(seq) : seq[i] = q) - 1 IN
  [ct |-> ct, V |-> [i \in Dom(seq) |-> pos(seq[i])], C |-> [k \in Dom(cells) |-> [j \in Dom(cells[k]) |-> ix(cells[k][j])]]]
Even(v) == v[1] = 2 * (v[1] \div 2) /\ v[2] = 2 * (v[2] \div 2)
Mod4(k) == (k - 1) - 4 * ((k - 1) \div 4)
RefRefine(K) ==
  LET Kid(k) == LET c == K.C[(k - 1) \div 4 + 1] a == <<c[1],c[1]>> b == <<c[2],c[2]>> d == <<c[3],c[3]>>
                    ab == Sorted2(c[1],c[2]) bd == Sorted2(c[2],c[3]) da == Sorted2(c[3],c[1])
                four == << <<a,ab,da>>, <<ab,b,bd>>, <<da,bd,d>>, <<ab,bd,da>> >>
                IN four[Mod4(k) + 1]
      cells == [k \in 1..(4 * Len(K.C)) |-> Kid(k)]
      pos(q) == LET s == VAdd(P(K, q[1]), P(K, q[2])) IN [i \in Dom(s) |-> s[i] \div 2]
  IN LabMesh("tri3", UNION {ToSet(cells[k]) : k \in Dom(cells)}, pos, cells)
RefEnrich(K) ==
  LET par == NodeParents["tri6"]
      cells == [k \in Dom(K.C) |-> [j \in Dom(par) |-> Label(K.C[k], par[j])]]
      pos(q) == LET s == SumVec(K, q) IN [i \in Dom(s) |-> s[i] \div Len(q)]
  IN LabMesh("tri6", UNION {ToSet(cells[k]) : k \in Dom(cells)}, pos, cells)

(* ------------------------------ the machine ------------------------------- *)
\* vertices on a parabola-like curve: distinct, no three collinear; coordinates are multiples of 8
Coord(i) == <<8 * i, 8 * (i * i)>>
Cells == {c \in [1..3 -> 0..(NV - 1)] : Tri2(Coord(c[1]), Coord(c[2]), Coord(c[3])) > 0}
Starts == {[ct |-> "tri3", V |-> [i \in 1..NV |-> Coord(i - 1)], C |-> cs] : cs \in UNION {[1..n -> Cells] : n \in 0..MaxC}}
Lists(n) == UNION {[1..k -> 0..(n - 1)] : k \in 0..Min2(2, n)}
Op(name, arg, N) == /\ M' = N /\ last' = <<name, M, arg>>
                    /\ hist' = Append(hist, <<name, arg>>) /\ UNCHANGED start
DoKeep == \E list \in Lists(Len(M.C)) : Op("keep", list, RefKeep(M, list))
DoRefine == WithRefine /\ Len(M.C) <= 2 /\ (\A v \in ToSet(M.V) : Even(v)) /\ Op("refine", <<>>, RefRefine(M))
MInit == M \in Starts /\ start = M /\ hist = <<>> /\ last = <<"start", M, <<>> >>
MNext == Len(hist) < MaxSteps /\ (DoKeep \/ DoRefine)
MSpec == MInit /\ [][MNext]_mvars

(* ------------------------------ properties -------------------------------- *)
StepRel == CASE last[1] = "keep" -> KeepRel(last[2], last[3], M)
             [] last[1] = "refine" -> RefineRel(last[2], M)
             [] OTHER -> TRUE
SurfaceOK == SurfaceRel(M, RefSurface(M))
EnrichOK == EnrichRel(M, RefEnrich(M))
\* refinement commutes with taking the boundary: the boundary edges of the refined mesh are the halves of the old ones
EdgePts(K) == {{P(K, v) : v \in ToSet(FaceVerts(K, b[1], b[2]))} : b \in BoundaryIds(K)}
Halves(K) == UNION {LET q == FaceVerts(K, b[1], b[2]) s == VAdd(P(K,q[1]), P(K,q[2])) m == [i \in 1..2 |-> s[i] \div 2]
                    IN {{P(K,q[1]), m}, {m, P(K,q[2])}} : b \in BoundaryIds(K)}
BoundaryCommutes == last[1] = "refine" => EdgePts(M) = Halves(last[2])
\* no hanging nodes: no vertex of the refined mesh lies inside an edge of it (checked by labels: midpoints are all used)
AreaKept == last[1] = "refine" => SumOver(LAMBDA k : CellSize(M, M.C[k]), Dom(M.C)) = SumOver(LAMBDA k : CellSize(last[2], last[2].C[k]), Dom(last[2].C))
\* the relations reject wrong results (non-vacuity)
Wrong == last[1] = "keep" /\ Len(M.V) >= 2 =>
  /\ ~KeepRel(last[2], last[3], [M EXCEPT !.V = [@ EXCEPT ![1] = M.V[2]]])
  /\ ~KeepRel(last[2], last[3], [M EXCEPT !.V = Append(@, <<0, 0>>)])
EmitInv == (Emit /\ Len(hist) = MaxSteps) => PrintT("CASE " \o ToJson([ct |-> start.ct, V |-> start.V, C |-> start.C, hist |-> hist]))
=============================================================================
