------------------------------ MODULE MC_Poly -------------------------------
(* Design check of polyhedral meshes: an index-level algorithm for every       *)
(* operation (vertices on cut edges represented by vertex pairs, faces         *)
(* triangulated from their least vertex, ...) satisfies the geometric and      *)
(* topological relations; volumes are conserved; wrong results are rejected.   *)
(* Also enumerates small histories for the real code.                          *)
EXTENDS Poly, Json
CONSTANTS MaxSteps, Starts, Ops, Emit
VARIABLES M, start, hist, last
mvars == <<M, start, hist, last>>

(* ------------------------------- base meshes ------------------------------ *)
FromCells(ct, V, C) ==      \* reference conversion
  LET K == [ct |-> ct, V |-> V, C |-> C]
      all == FlattenS([c \in Dom(C) |-> [f \in Dom(Faces[ct]) |-> FaceVerts(K, c, f)]])
      firsts == SelectSeq([i \in Dom(all) |-> i], LAMBDA i : \A j \in 1..(i - 1) : ToSet(all[j]) # ToSet(all[i]))
      ix(q) == (CHOOSE i \in Dom(firsts) : ToSet(all[firsts[i]]) = ToSet(q)) - 1
  IN [V |-> V, F |-> [i \in Dom(firsts) |-> all[firsts[i]]], C |-> [c \in Dom(C) |-> [f \in Dom(Faces[ct]) |-> ix(FaceVerts(K, c, f))]]]
S == 12
Box(x0, x1) == << <<x0,0,0>>, <<x1,0,0>>, <<x1,S,0>>, <<x0,S,0>>, <<x0,0,S>>, <<x1,0,S>>, <<x1,S,S>>, <<x0,S,S>> >>
Base(k) ==
  CASE k = 1 -> [ct |-> "hex8", V |-> Box(0, S), C |-> << <<0,1,2,3,4,5,6,7>> >>]
    [] k = 2 -> [ct |-> "tet4", V |-> << <<0,0,0>>, <<S,0,0>>, <<0,S,0>>, <<0,0,S>> >>, C |-> << <<0,1,2,3>> >>]
    [] k = 3 -> [ct |-> "hex8", V |-> Box(0, S) \o << <<2*S,0,0>>, <<2*S,S,0>>, <<2*S,0,S>>, <<2*S,S,S>> >>,
                 C |-> << <<0,1,2,3,4,5,6,7>>, <<1,8,9,2,5,10,11,6>> >>]
    [] k = 4 -> [ct |-> "tet4", V |-> << <<0,0,0>>, <<S,0,0>>, <<0,S,0>>, <<0,0,S>>, <<S,S,S>> >>, C |-> << <<0,1,2,3>>, <<1,2,3,4>> >>]
    [] OTHER -> [ct |-> "hex8", V |-> <<>>, C |-> <<>>]

(* ------------------------ reference implementations ----------------------- *)
The(T) == CHOOSE x \in T : TRUE   \* a bound value is evaluated once; in actions TLC re-evaluates definitions and arguments
RelabelWith(pos(_), faces, cells, labs) ==
  LET lix(q) == (CHOOSE i \in Dom(labs) : labs[i] = q) - 1
      live == SelectSeq([f \in Dom(faces) |-> f], LAMBDA f : faces[f] # <<>>)
      fix(f) == (CHOOSE i \in Dom(live) : live[i] = f) - 1
      cs == SelectSeq(cells, LAMBDA c : c # <<>>)
  IN [V |-> [i \in Dom(labs) |-> pos(labs[i])], F |-> [i \in Dom(live) |-> [j \in Dom(faces[live[i]]) |-> lix(faces[live[i]][j])]],
      C |-> [i \in Dom(cs) |-> [j \in Dom(cs[i]) |-> fix(cs[i][j])]]]
Relabel(pos(_), faces, cells) ==    \* faces over arbitrary labels; empty faces and empty cells vanish
  The({RelabelWith(pos, faces, cells, labs) : labs \in {SetToSeq(UNION {ToSet(faces[f]) : f \in Dom(faces)})}})
RECURSIVE Chain(_, _)
Chain(segs, path) ==     \* string cut edges together into the loop of the cap
  IF \E s \in segs : path[Len(path)] \in {s[1], s[2]}
  THEN LET s == CHOOSE s \in segs : path[Len(path)] \in {s[1], s[2]} IN Chain(segs \ {s}, Append(path, IF s[1] = path[Len(path)] THEN s[2] ELSE s[1]))
  ELSE SubSeq(path, 1, Len(path) - 1)
RefClip(K, n, d) ==
  LET in(v) == Side(n, d, K.V[v + 1]) <= 0
      cutf(f) == LET q == K.F[f] IN FlattenS([i \in Dom(q) |-> LET a == q[i] b == CycNext(q, i) IN
                    (IF in(a) THEN << <<a, a>> >> ELSE <<>>) \o (IF in(a) # in(b) THEN << Sorted2(a, b) >> ELSE <<>>)])
      faces == [f \in Dom(K.F) |-> cutf(f)]
      segs(c) == UNION {LET q == faces[f + 1] IN {<<q[i], CycNext(q, i)>> : i \in {i \in Dom(q) : q[i][1] # q[i][2] /\ CycNext(q, i)[1] # CycNext(q, i)[2]}} : f \in ToSet(K.C[c])}
      caps == [c \in Dom(K.C) |-> LET s == segs(c) IN IF s = {} THEN <<>> ELSE LET a == CHOOSE a \in s : TRUE IN <<a[1]>> \o Chain(s \ {a}, <<a[2]>>)]
      cells == [c \in Dom(K.C) |-> SelectSeq([j \in Dom(K.C[c]) |-> K.C[c][j] + 1], LAMBDA f : faces[f] # <<>>) \o (IF caps[c] = <<>> THEN <<>> ELSE <<Len(K.F) + c>>)]
      pos(q) == IF q[1] = q[2] THEN K.V[q[1] + 1] ELSE LET a == K.V[q[1] + 1] b == K.V[q[2] + 1] IN
                  IF Side(n, d, a) = 0 THEN a ELSE IF Side(n, d, b) = 0 THEN b ELSE Crossing(n, d, a, b)
  IN The({Relabel(pos, fc[1], fc[2]) : fc \in {<<faces \o caps, cells>>}})
RefKeepP(K, list) ==
  LET fs == UNION {ToSet(K.C[list[i] + 1]) : i \in Dom(list)}
      faces == [f \in Dom(K.F) |-> IF (f - 1) \in fs THEN K.F[f] ELSE <<>>]
      pos(v) == K.V[v + 1]
  IN Relabel(pos, faces, [i \in Dom(list) |-> [j \in Dom(K.C[list[i] + 1]) |-> K.C[list[i] + 1][j] + 1]])
DedupBy(K, firsts) ==
  LET ix(f) == (CHOOSE i \in Dom(firsts) : ToSet(K.F[firsts[i]]) = ToSet(K.F[f + 1])) - 1
  IN [V |-> K.V, F |-> [i \in Dom(firsts) |-> K.F[firsts[i]]], C |-> [c \in Dom(K.C) |-> [j \in Dom(K.C[c]) |-> ix(K.C[c][j])]]]
DedupOf(K) == The({DedupBy(K, fs) : fs \in {SelectSeq([i \in Dom(K.F) |-> i], LAMBDA i : \A j \in 1..(i - 1) : ToSet(K.F[j]) # ToSet(K.F[i]))}})
RefDedup(K0) == The({DedupOf(K) : K \in {K0}})
RefSplit(K) ==
  LET es == SetToSeq(UNION {ToSet(EdgesOf(K.F[f])) : f \in Dom(K.F)})
      ix(e) == Len(K.V) + (CHOOSE i \in Dom(es) : es[i] = e) - 1
  IN [V |-> K.V \o [i \in Dom(es) |-> LET s == VAdd(K.V[es[i][1] + 1], K.V[es[i][2] + 1]) IN [k \in Dom(s) |-> s[k] \div 2]],
      F |-> [f \in Dom(K.F) |-> FlattenS([i \in Dom(K.F[f]) |-> <<K.F[f][i], ix(Sorted2(K.F[f][i], CycNext(K.F[f], i)))>>])], C |-> K.C]
RefTri(K) ==
  LET fan(q) == LET m == CHOOSE i \in Dom(q) : q[i] = Min(ToSet(q)) r == [i \in Dom(q) |-> q[((i + m - 2) % Len(q)) + 1]] IN [i \in 1..(Len(q) - 2) |-> <<r[1], r[i + 1], r[i + 2]>>]
      tets(c) == LET v == Min(CellVerts(K, c))
                     far == SelectSeq(K.C[c], LAMBDA f : v \notin ToSet(K.F[f + 1])) IN
                 FlattenS([j \in Dom(far) |-> LET t == fan(K.F[far[j] + 1]) IN [k \in Dom(t) |-> <<t[k], <<t[k][1], t[k][2], v>>, <<t[k][2], t[k][3], v>>, <<t[k][3], t[k][1], v>> >>]])
      all == FlattenS([c \in Dom(K.C) |-> IF K.C[c] = <<>> THEN <<>> ELSE tets(c)])
  IN The({RefDedup([V |-> K.V, F |-> FlattenS(al), C |-> [t \in Dom(al) |-> [j \in 1..4 |-> 4 * (t - 1) + j - 1]]]) : al \in {all}})
RefTets(K) == [c \in Dom(K.C) |-> LET q == K.F[K.C[c][1] + 1] a == CHOOSE v \in CellVerts(K, c) : v \notin ToSet(q) IN
   IF Tet6(K.V[q[1]+1], K.V[q[2]+1], K.V[q[3]+1], K.V[a+1]) > 0 THEN q \o <<a>> ELSE <<q[2], q[1], q[3], a>>]

(* ------------------------------ the machine ------------------------------- *)
Normals == {<<1,0,0>>, <<0,-1,0>>, <<0,0,1>>, <<1,1,0>>, <<1,1,1>>, <<-1,1,0>>, <<-1,-1,-1>>, <<1,0,-1>>}
Points == {<<0,0,0>>, <<S,0,0>>, <<S \div 2, 0, 0>>, <<S, S, S>>, <<S \div 3, S \div 3, S \div 3>>, <<2*S, S, 0>>, <<-1, 0, 0>>}
Exact(K, n, d) == \A f \in Dom(K.F) : LET q == Pts(K, K.F[f]) IN \A i \in Dom(q) :
   LET a == q[i] b == CycNext(q, i) sa == Side(n, d, a) sb == Side(n, d, b) IN ((sa < 0 /\ sb > 0) \/ (sa > 0 /\ sb < 0)) => OnGrid(n, d, a, b)
Even3(v) == \A k \in Dom(v) : v[k] = 2 * (v[k] \div 2)
Op(name, arg, N) == M' = N /\ last' = <<name, M, arg>> /\ hist' = Append(hist, <<name, arg>>) /\ UNCHANGED start
DoClip == "clip" \in Ops /\ \E n \in Normals : \E p \in Points : (Exact(M, n, Dot3(n, p)) = TRUE) /\ Op("clip", <<n, p>>, RefClip(M, n, Dot3(n, p)))
DoKeep == "keep" \in Ops /\ \E k \in 0..Min2(2, Len(M.C)) : \E list \in [1..k -> 0..(Len(M.C) - 1)] : Op("keep", list, RefKeepP(M, list))
DoDouble == "concat" \in Ops /\ Len(M.C) <= 2 /\ Op("concat", 2, ConcatOf(<<M, M>>))
DoDedup == "dedup" \in Ops /\ Op("dedup", 0, RefDedup(M))
DoSplit == "split" \in Ops /\ Len(M.V) <= 16 /\ (\A v \in ToSet(M.V) : Even3(v)) /\ Op("split", 1, RefSplit(M))
DoTri == "tri" \in Ops /\ Len(M.C) <= 2 /\ Op("tri", 0, RefTri(M))
MInit == \E k \in Starts : start = k /\ M = FromCells(Base(k).ct, Base(k).V, Base(k).C) /\ hist = <<>> /\ last = <<"start", Base(k), k>>
MNext == Len(hist) < MaxSteps /\ (DoClip \/ DoKeep \/ DoDouble \/ DoDedup \/ DoSplit \/ DoTri)
MSpec == MInit /\ [][MNext]_mvars

(* ------------------------------ properties -------------------------------- *)
StepRel == CASE last[1] = "start" -> FromRel(last[2], M)
             [] last[1] = "clip" -> ClipRel(last[2], last[3][1], Dot3(last[3][1], last[3][2]), M)
             [] last[1] = "keep" -> PolyKeepRel(last[2], last[3], M)
             [] last[1] = "concat" -> Volume(M) = 2 * Volume(last[2]) /\ Closed(M)
             [] last[1] = "dedup" -> DedupRel(last[2], M) /\ Geometry(M) = Geometry(last[2]) /\ RefDedup(M) = M
             [] last[1] = "split" -> SplitEdgesRel(last[2], M) /\ Closed(M) /\ Geometry(M) = Geometry(last[2])
             [] last[1] = "tri" -> TriangulateWeak(last[2], M) /\ Volume(M) = Volume(last[2]) /\ (SimpleCells(last[2]) => TriangulateRel(last[2], M) /\ TetMeshRel(M, M.V, RefTets(M)))
AlwaysClosed == Indexed(M) /\ Closed(M)
Complement == last[1] = "clip" => LET n == last[3][1] d == Dot3(n, last[3][2]) m == VScale(-1, n) K == last[2] IN
   /\ Volume(M) + Volume(RefClip(K, m, -d)) = Volume(K)
   /\ (\A v \in ToSet(K.V) : Side(n, d, v) < 0) => Geometry(M) = Geometry(K)
   /\ (\A v \in ToSet(K.V) : Side(n, d, v) > 0) => M.C = <<>>
   /\ Geometry(RefClip(M, n, d)) = Geometry(M)
   /\ Volume(RefClip(M, m, -d)) = 0
\* the relations reject wrong results
Drop1(s) == SubSeq(s, 1, Len(s) - 1)
Wrong == /\ (last[1] = "clip" /\ M.C # <<>> /\ Volume(M) # 0) =>
              LET n == last[3][1] d == Dot3(n, last[3][2]) K == last[2] IN
              /\ ~ClipRel(K, n, d, [M EXCEPT !.C = Drop1(M.C)]) \/ CellVol(M, Len(M.C)) = 0
              /\ LET c == FullCells(M)[1] IN ~ClipRel(K, n, d, [M EXCEPT !.C[c] = Drop1(M.C[c])])
              /\ (Volume(M) # Volume(K)) => ~ClipRel(K, n, d, K)
         /\ (last[1] = "tri" /\ M.C # <<>> /\ SimpleCells(last[2]) /\ CellVol(M, Len(M.C)) # 0) => ~TriangulateRel(last[2], [M EXCEPT !.C = Drop1(M.C)])
         /\ (last[1] = "split" /\ last[2].F # <<>>) => ~SplitEdgesRel(last[2], last[2])
EmitInv == (Emit /\ Len(hist) = MaxSteps) => PrintT("CASE " \o ToJson([ct |-> Base(start).ct, V |-> Base(start).V, C |-> Base(start).C, hist |-> hist]))
=============================================================================
