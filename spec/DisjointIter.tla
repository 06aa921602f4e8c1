---------------------------- MODULE DisjointIter ----------------------------
(* Iteration over a family of disjoint subsets.  A piece covers the subsets   *)
(* lo+1..hi; it can be split anywhere (both ends included) before it is       *)
(* opened, and consumed from both ends afterwards.  data is the storage: a    *)
(* record of width w per index.                                               *)
EXTENDS Util
VARIABLES F, labels, pieces, nid, data, delivered
ivars == <<F, labels, pieces, nid, data, delivered>>

Start(f, lab, d) == /\ F' = f /\ labels' = lab /\ data' = d
                    /\ pieces' = (0 :> [lo |-> 0, hi |-> Len(f), open |-> FALSE]) /\ nid' = 1
                    /\ delivered' = <<>>
Size(p) == pieces[p].hi - pieces[p].lo
Split(p, k) ==
  /\ p \in DOMAIN pieces /\ ~pieces[p].open /\ k \in 0..Size(p)
  /\ LET q == pieces[p] IN
     pieces' = (nid :> [q EXCEPT !.hi = q.lo + k]) @@ ((nid + 1) :> [q EXCEPT !.lo = q.lo + k])
               @@ [x \in DOMAIN pieces \ {p} |-> pieces[x]]
  /\ nid' = nid + 2 /\ UNCHANGED <<F, labels, data, delivered>>
Open(p) == /\ p \in DOMAIN pieces /\ ~pieces[p].open
           /\ pieces' = [pieces EXCEPT ![p].open = TRUE] /\ UNCHANGED <<F, labels, nid, data, delivered>>
\* subset k is handed out: its records are updated by a value that depends on label and position
Bump(k, j) == (labels[k] + 1) * (j + 1)
Hand(k) == /\ data' = FoldSeq(LAMBDA ix, d : [d EXCEPT ![ix + 1] = [j \in Dom(d[ix + 1]) |-> d[ix + 1][j] + Bump(k, j - 1)]], data, F[k])
           /\ delivered' = Append(delivered, k)
TakeFront(p) == /\ p \in DOMAIN pieces /\ pieces[p].open /\ Size(p) > 0
            /\ Hand(pieces[p].lo + 1) /\ pieces' = [pieces EXCEPT ![p].lo = @ + 1] /\ UNCHANGED <<F, labels, nid>>
TakeBack(p) == /\ p \in DOMAIN pieces /\ pieces[p].open /\ Size(p) > 0
           /\ Hand(pieces[p].hi) /\ pieces' = [pieces EXCEPT ![p].hi = @ - 1] /\ UNCHANGED <<F, labels, nid>>
Nothing(p) == /\ p \in DOMAIN pieces /\ pieces[p].open /\ Size(p) = 0 /\ UNCHANGED ivars

(* ------------------------------ properties ------------------------------- *)
Remaining == UNION {(pieces[p].lo + 1)..pieces[p].hi : p \in DOMAIN pieces}
ExactlyOnce == /\ Cardinality(ToSet(delivered)) = Len(delivered)
               /\ ToSet(delivered) \cup Remaining = Dom(F)
               /\ ToSet(delivered) \cap Remaining = {}
PiecesDisjoint == \A p, q \in DOMAIN pieces : p # q =>
   ((pieces[p].lo + 1)..pieces[p].hi) \cap ((pieces[q].lo + 1)..pieces[q].hi) = {}
FamilyDisjoint(f) == \A i, j \in Dom(f) : i # j => ToSet(f[i]) \cap ToSet(f[j]) = {}
MaxIx(f) == FoldSet(LAMBDA a, b : Max2(a, b), -1, UNION {ToSet(s) : s \in ToSet(f)})
=============================================================================
