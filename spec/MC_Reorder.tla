------------------------------ MODULE MC_Reorder ----------------------------
(* Design check for permutations and Cuthill-McKee orders: group laws, the    *)
(* relabelling of a mesh is an isomorphism that can be undone, and breadth    *)
(* first numbering (any choice among equal degrees) satisfies the relation.   *)
EXTENDS Mesh
CONSTANTS N, MaxPat
VARIABLES p, q, lanes, order, queue
mvars == <<p, q, lanes, order, queue>>
Perms(n) == {s \in [1..n -> 0..(n - 1)] : IsPerm(s)}
Patterns(n) == {L \in [1..n -> SUBSET (0..(n - 1))] : \A i, j \in 1..n : ((j - 1) \in L[i]) <=> ((i - 1) \in L[j])}
\* all Cuthill-McKee runs: number a vertex, then its unnumbered neighbours by degree; restart at least degree
Adj(v) == ToSet(lanes[v + 1])
Deg(v) == Len(lanes[v + 1])
MInit == /\ p \in Perms(N) /\ q \in Perms(N) /\ p[1] <= q[1]
         /\ \E L \in Patterns(MaxPat) : lanes = [i \in Dom(L) |-> SortedSeq(L[i])]
         /\ (p # [i \in 1..N |-> i - 1] \/ q # p => lanes = [i \in 1..MaxPat |-> <<>>])
         /\ order = <<>> /\ queue = <<>>
Numbered == ToSet(order) \cup ToSet(queue)
Sorted(s) == \A i \in 1..(Len(s) - 1) : Deg(s[i]) <= Deg(s[i + 1])
Restart == /\ queue = <<>>
           /\ \E v \in (0..(MaxPat - 1)) \ Numbered :
                /\ \A w \in (0..(MaxPat - 1)) \ Numbered : Deg(v) <= Deg(w)
                /\ queue' = <<v>>
           /\ UNCHANGED <<p, q, lanes, order>>
Visit == /\ queue # <<>>
         /\ order' = Append(order, Head(queue))
         /\ LET new == Adj(Head(queue)) \ Numbered IN
            \E s \in {t \in [1..Cardinality(new) -> new] : ToSet(t) = new} : Sorted(s) /\ queue' = Tail(queue) \o s
         /\ UNCHANGED <<p, q, lanes>>
MNext == Restart \/ Visit
MSpec == MInit /\ [][MNext]_mvars
Data == [i \in 1..N |-> 10 * i]
GroupLaws == /\ ApplyPerm(InvPerm(p), ApplyPerm(p, Data)) = Data /\ ApplyPerm(p, ApplyPerm(InvPerm(p), Data)) = Data
             /\ IsPerm(InvPerm(p)) /\ InvPerm(InvPerm(p)) = p
             /\ ApplyPerm(q, ApplyPerm(p, Data)) = ApplyPerm(ApplyPerm(q, p), Data)
TheMesh == [ct |-> "seg2", V |-> [i \in 1..N |-> <<i, 0>>], C |-> [i \in 1..N |-> <<i - 1, (i \div N) * 0>>]]
Renum == LET inv == InvPerm(p) IN [ct |-> "seg2", V |-> ApplyPerm(p, TheMesh.V),
           C |-> [k \in Dom(q) |-> [j \in 1..2 |-> inv[TheMesh.C[q[k] + 1][j] + 1]]]]
MeshIso == /\ ReorderRel(TheMesh, Renum, p, q)
           /\ \A k \in Dom(q) : \A j \in 1..2 : P(Renum, Renum.C[k][j]) = P(TheMesh, TheMesh.C[q[k] + 1][j])
CMIsPerm == Len(order) = MaxPat => IsPerm(order)
CMExists == Len(order) = MaxPat => CuthillMcKee(lanes, order)
=============================================================================
