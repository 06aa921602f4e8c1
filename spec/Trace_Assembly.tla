--------------------------- MODULE Trace_Assembly ---------------------------
(* Validates recorded assemblies (serial and parallel, matrix, vector and    *)
(* scalar, patterns, gather/scatter) against AssemblyRun and Assembly.        *)
EXTENDS Assembly, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, disc, run,  \* run: the event that began the current assembly
          job, phase, todo, busy, done, failed
tvars == <<l, disc, run, job, phase, todo, busy, done, failed>>
A == INSTANCE AssemblyRun
E == Trace[l]
IsEvent(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Disc(e) == [nn |-> e.n, sd |-> e.s, el |-> e.elems]
NoRun == [kind |-> "none"]

TInit == l = 1 /\ disc = [nn |-> 0, sd |-> 1, el |-> <<>>] /\ run = NoRun /\ A!RunInit
Idle == phase = "idle" /\ UNCHANGED <<job, phase, todo, busy, done, failed, run>>

New == IsEvent("new") /\ disc' = Disc(E) /\ run' = NoRun
       /\ job' = A!NoJob /\ phase' = "idle" /\ todo' = {} /\ busy' = {} /\ done' = {} /\ failed' = {}
Mesh == IsEvent("mesh") /\ disc' = Disc(E) /\ Idle
Pat == IsEvent("pat") /\ UNCHANGED disc /\ Idle
       /\ E.nrows = disc.nn * disc.sd /\ E.ncols = disc.nn * disc.sd
       /\ E.rows = Pattern(disc.el, disc.nn, disc.sd)

\* keys present in the matrix the user passed in: its couplings and some more
InBase(e, r, c) == Coupled(disc.el, r \div disc.sd, c \div disc.sd) \/ \E x \in ToSet(e.extra) : x[1] = r /\ x[2] = c
\* conflicts only matter where elements write to shared storage concurrently
JobOf(e) == [nodes |-> IF e.kind = "sca" \/ e.par = 0 THEN [k \in Dom(disc.el) |-> <<>>] ELSE disc.el,
             fail |-> {x + 1 : x \in ToSet(e.fail)}]
BeginRun == IsEvent("begin") /\ A!Begin(JobOf(E)) /\ run' = E /\ UNCHANGED disc
StartE == IsEvent("s") /\ A!Start(E.e + 1) /\ UNCHANGED <<disc, run>>
DoneE == IsEvent("d") /\ E.calls = 1 /\ A!Finish(E.e + 1) /\ UNCHANGED <<disc, run>>

\* the returned quantity is exactly the initial content plus the contributions of the elements done
With(a) == {k \in done : a \in ToSet(disc.el[k])}
MatEntry(r, c) ==
  LET a == r \div disc.sd  b == c \div disc.sd IN
  SumOver(LAMBDA k : SumOver(LAMBDA i : SumOver(LAMBDA j : LocalMat(run.tag, k - 1, i, j), Locals(disc.el[k], disc.sd, c)),
                             Locals(disc.el[k], disc.sd, r)), With(a) \cap With(b))
  + IF run.into = 1 /\ InBase(run, r, c) THEN BaseMat(r, c) ELSE 0
VecEntry(r) ==
  SumOver(LAMBDA k : SumOver(LAMBDA i : LocalVec(run.tag, k - 1, i), Locals(disc.el[k], disc.sd, r)), With(r \div disc.sd))
  + IF run.into = 1 THEN BaseVec(r) ELSE 0
ResultOK ==
  CASE run.kind = "mat" ->
         LET keys == {<<t[1], t[2]>> : t \in ToSet(E.val)}
             all == UNION {Keys(disc.el[k], disc.sd) \X Keys(disc.el[k], disc.sd) : k \in Dom(disc.el)}
                      \cup (IF run.into = 1 THEN {<<x[1], x[2]>> : x \in ToSet(run.extra)} ELSE {})
         IN
         /\ Cardinality(keys) = Len(E.val)
         /\ \A t \in ToSet(E.val) : t[3] = MatEntry(t[1], t[2])
         /\ \A rc \in all \ keys : MatEntry(rc[1], rc[2]) = 0
    [] run.kind = "vec" -> Len(E.val) = disc.nn * disc.sd /\ \A r \in Dom(E.val) : E.val[r] = VecEntry(r - 1)
    [] run.kind = "sca" -> E.val = << SumOver(LAMBDA k : LocalSca(run.tag, k - 1), done) >>
EndOk == IsEvent("end") /\ E.ok = 1 /\ A!EndOk /\ ResultOK /\ run' = NoRun /\ UNCHANGED disc
EndErr == IsEvent("end") /\ E.ok = 0 /\ E.tag = run.tag /\ A!EndErr(E.who + 1) /\ run' = NoRun /\ UNCHANGED disc

\* gather_global_to_local and add_local_to_global with the same index list
Gather == IsEvent("gather") /\ UNCHANGED disc /\ Idle
          /\ Len(E.local) = E.s * Len(E.idx)
          /\ \A q \in Dom(E.local) : E.local[q] = E.global[E.s * E.idx[(q-1) \div E.s + 1] + ((q-1) % E.s) + 1]
Scatter == IsEvent("scatter") /\ UNCHANGED disc /\ Idle
           /\ Len(E.after) = Len(E.global)
           /\ \A r \in Dom(E.after) :
                E.after[r] = E.global[r] + SumOver(LAMBDA p : IF E.idx[p] = (r-1) \div E.s THEN E.local[E.s*(p-1) + ((r-1) % E.s) + 1] ELSE 0,
                                                   Dom(E.idx))
TNext == New \/ Mesh \/ Pat \/ BeginRun \/ StartE \/ DoneE \/ EndOk \/ EndErr \/ Gather \/ Scatter
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("STUCK " \o ToString(d)) /\ FALSE
=============================================================================
