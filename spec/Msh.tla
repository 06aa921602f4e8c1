--------------------------------- MODULE Msh ---------------------------------
(* Mesh files as documents, and what loading one must do.                      *)
(* f: [hasNodes, hasElems: BOOLEAN, broken: BOOLEAN (not a well-formed file),  *)
(*     nn, nmin, nmax (claimed count and tag range), ne, emin, emax,           *)
(*     nb: blocks of nodes   [tags, pts],                                      *)
(*     eb: blocks of elements [dim, type, tags, els: sequence of node tags]]   *)
(* want: [type, dim, D]: element type, reference dimension, space dimension    *)
EXTENDS Util
Sparse(n, lo, hi) == hi - lo > n - 1
AllPts(f) == FoldSeq(LAMBDA b, acc : acc \o b.pts, <<>>, f.nb)
AllTags(f) == FoldSeq(LAMBDA b, acc : acc \o b.tags, <<>>, f.nb)
Matches(b, want) == b.type = want.type /\ b.dim = want.dim
Requested(f, want) == SelectSeq(f.eb, LAMBDA b : Matches(b, want))
RequestedEls(f, want) == FoldSeq(LAMBDA b, acc : acc \o b.els, <<>>, Requested(f, want))
Refs(els) == UNION {ToSet(els[i]) : i \in Dom(els)}
\* the reasons for which loading has to be refused
Malformed(f) == f.broken \/ ~f.hasNodes \/ ~f.hasElems
NoBlock(f, want) == Requested(f, want) = <<>>
CountsDisagree(f) == Len(AllPts(f)) # f.nn
SparseNumbering(f) == \/ Sparse(f.nn, f.nmin, f.nmax) /\ f.nb # <<>>
                      \/ Sparse(f.ne, f.emin, f.emax) /\ f.eb # <<>>
DanglingRef(f, want) == Refs(RequestedEls(f, want)) \ ToSet(AllTags(f)) # {}
MustErr(f, want) == Malformed(f) \/ NoBlock(f, want) \/ CountsDisagree(f) \/ SparseNumbering(f) \/ DanglingRef(f, want)
\* regular files are those that have to be loaded: every claim holds, tags count from one in file order, nothing refers to nowhere
Regular(f, want) ==
  /\ ~MustErr(f, want)
  /\ AllTags(f) = [i \in 1..f.nn |-> i] /\ f.nmin = 1 /\ f.nmax = f.nn
  /\ FoldSeq(LAMBDA b, acc : acc + Len(b.els), 0, f.eb) = f.ne
  /\ \A b \in ToSet(f.eb) : Refs(b.els) \subseteq 1..f.nn
\* the mesh a file states
Position(f, tag) == (CHOOSE i \in Dom(AllTags(f)) : AllTags(f)[i] = tag) - 1
Stated(f, want) ==
  [verts |-> [i \in Dom(AllPts(f)) |-> SubSeq(AllPts(f)[i], 1, want.D)],
   cells |-> LET els == RequestedEls(f, want) tags == AllTags(f) regular == tags = [i \in Dom(tags) |-> i] IN
             [i \in Dom(els) |-> [j \in Dom(els[i]) |-> IF regular THEN els[i][j] - 1 ELSE Position(f, els[i][j])]]]
Acceptable(f, want, res) ==
  IF res.ok THEN ~MustErr(f, want) /\ res.verts = Stated(f, want).verts /\ res.cells = Stated(f, want).cells
  ELSE ~Regular(f, want)
(* the algorithm of the loader: tags are not kept, nodes are addressed by their position in the file *)
Load(f, want) ==
  LET bad == [ok |-> FALSE, verts |-> <<>>, cells |-> <<>>]
      n == Len(AllPts(f)) els == RequestedEls(f, want) IN
  IF Malformed(f) \/ NoBlock(f, want) THEN bad
  ELSE IF Sparse(f.nn, f.nmin, f.nmax) /\ f.nb # <<>> THEN bad
  ELSE IF n # f.nn \/ f.nmin # 1 THEN bad
  ELSE IF Sparse(f.ne, f.emin, f.emax) /\ f.eb # <<>> THEN bad
  ELSE IF ~(Refs(els) \subseteq 1..n) THEN bad
  ELSE [ok |-> TRUE, verts |-> [i \in 1..n |-> SubSeq(AllPts(f)[i], 1, want.D)],
        cells |-> [i \in Dom(els) |-> [j \in Dom(els[i]) |-> els[i][j] - 1]]]
=============================================================================
