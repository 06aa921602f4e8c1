------------------------- MODULE Trace_DisjointIter -------------------------
EXTENDS DisjointIter, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<ivars, l>>
E == Trace[l]
IsEvent(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TInit == l = 1 /\ F = <<>> /\ labels = <<>> /\ pieces = <<>> /\ nid = 0 /\ data = <<>> /\ delivered = <<>>
New == IsEvent("new") /\ Start(E.F, E.labels, E.data)
\* what the delivered item showed: its label, indices, and the records before the update
ItemOK(k) == /\ E.label = labels[k] /\ E.indices = F[k]
             /\ Len(E.reads) = Len(F[k])
             /\ \A q \in Dom(F[k]) : E.reads[q] = data[F[k][q] + 1]
Len0(p) == pieces[p].hi - pieces[p].lo
SizeOK(p, n) == p \in DOMAIN pieces' => n = pieces'[p].hi - pieces'[p].lo
DoSplit == IsEvent("split") /\ Split(E.p, E.k)
DoOpen == IsEvent("open") /\ Open(E.p) /\ E.len = Size(E.p)
DoFront == IsEvent("next") /\ E.some = 1 /\ TakeFront(E.p) /\ ItemOK(pieces[E.p].lo + 1) /\ SizeOK(E.p, E.len)
DoBack == IsEvent("back") /\ E.some = 1 /\ TakeBack(E.p) /\ ItemOK(pieces[E.p].hi) /\ SizeOK(E.p, E.len)
DoNone == (IsEvent("next") \/ IsEvent("back")) /\ E.some = 0 /\ Nothing(E.p) /\ E.len = 0
Final == IsEvent("final") /\ E.data = data /\ UNCHANGED ivars
\* one use of the parallel iterator as a whole; adaptors only restrict or reorder what is delivered
Whole == /\ IsEvent("whole") /\ UNCHANGED <<F, labels, pieces, nid>>
         /\ LET n == Len(F)
                want == CASE E.how = "all" -> [k \in 1..n |-> k]
                          [] E.how = "rev" -> [k \in 1..n |-> n + 1 - k]
                          [] E.how = "take" -> [k \in 1..Min2(E.k, n) |-> k]
                          [] E.how = "skip" -> [k \in 1..Max2(0, n - E.k) |-> E.k + k]
            IN /\ E.plen = n /\ E.labels = [q \in Dom(want) |-> labels[want[q]]]
               /\ E.idx = [q \in Dom(want) |-> F[want[q]]]
               /\ data' = FoldSeq(LAMBDA k, d0 : FoldSeq(LAMBDA ix, d : [d EXCEPT ![ix + 1] =
                                 [j \in Dom(d[ix + 1]) |-> d[ix + 1][j] + Bump(k, j - 1)]], d0, F[k]), data, want)
               /\ data' = E.data
               /\ delivered' = <<>>
\* construction and storage checks
Try == IsEvent("try") /\ (E.ok = 1 <=> FamilyDisjoint(E.F)) /\ UNCHANGED ivars
Store == IsEvent("store") /\ (E.ok = 1 <=> E.len > MaxIx(F)) /\ UNCHANGED ivars
TNext == New \/ DoSplit \/ DoOpen \/ DoFront \/ DoBack \/ DoNone \/ Final \/ Whole \/ Try \/ Store
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("STUCK " \o ToString(d)) /\ FALSE
=============================================================================
