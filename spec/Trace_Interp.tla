---------------------------- MODULE Trace_Interp -----------------------------
EXTENDS Interp, Json, IOUtils
Sp == INSTANCE Spatial
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, sp, cur, M
E == Trace[l]
IsEvent(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
NoSpace == [D |-> 1, nodes |-> <<>>, at |-> <<>>]
NoCur == [pts |-> <<>>, what |-> 0]
TInit == l = 1 /\ sp = NoSpace /\ cur = NoCur /\ M = [ct |-> "tri3", V |-> <<>>, C |-> <<>>]
New == IsEvent("space") /\ sp' = [D |-> E.D, nodes |-> E.nodes, at |-> E.at] /\ cur' = NoCur /\ UNCHANGED M
\* both ways of building agree
BuildEv == IsEvent("build") /\ E.res = "ok" /\ E.same = 1 /\ cur' = [pts |-> E.pts, what |-> E.what] /\ UNCHANGED <<sp, M>>
SizeOk(e, n) == e.into < 0 \/ e.into = n
\* use of the interpolator: values (what 0, 1), gradients (what 0, 2)
ValuesEv ==
  /\ IsEvent("values") /\ UNCHANGED <<sp, cur, M>>
  /\ IF cur.what \in {0, 1} /\ SizeOk(E, Len(cur.pts)) /\ Fits(sp, ToSet(cur.pts), E.u, E.s)
     THEN E.res = "ok" /\ (E.out = Values(sp, cur.pts, E.u, E.s)) = TRUE
     ELSE E.res = "panic"
GradsEv ==
  /\ IsEvent("grads") /\ UNCHANGED <<sp, cur, M>>
  /\ IF cur.what \in {0, 2} /\ SizeOk(E, Len(cur.pts)) /\ Fits(sp, ToSet(cur.pts), E.u, E.s)
     THEN /\ E.res = "ok" /\ Len(E.out) = Len(cur.pts)
          /\ \A i \in Dom(cur.pts) : IsGradAt(sp, cur.pts[i], E.u, E.s, E.out[i], 16)
     ELSE E.res = "panic"
\* directly in the space (sizes fit)
DirectEv ==
  /\ IsEvent("direct") /\ UNCHANGED <<sp, cur, M>>
  /\ IF SizeOk(E, Len(E.pts))
     THEN E.res = "ok" /\ (E.out = Values(sp, E.pts, E.u, E.s)) = TRUE ELSE E.res = "panic"
DirectGradEv ==
  /\ IsEvent("directgrads") /\ UNCHANGED <<sp, cur, M>>
  /\ IF SizeOk(E, Len(E.pts))
     THEN /\ E.res = "ok" /\ Len(E.out) = Len(E.pts)
          /\ \A i \in Dom(E.pts) : IsGradAt(sp, E.pts[i], E.u, E.s, E.out[i], 16)
     ELSE E.res = "panic"
\* from compressed data
RawEv ==
  /\ IsEvent("raw") /\ UNCHANGED <<sp, cur, M>>
  /\ IF OkData(E.off, E.idx, E.val, E.grad)
     THEN /\ E.res = "ok"
          /\ LET c == [off |-> E.off, idx |-> E.idx, val |-> E.val] IN
             E.out = [i \in 1..(Len(E.off) - 1) |-> RowValue(c, i, E.u, E.s)]
     ELSE E.res = "panic"
\* linear functions on meshes of simplices: the function at the closest point, and its gradient.
\* f(x) = f0 + f.x; values on the grid 1/10000
MeshEv == IsEvent("mesh") /\ M' = [ct |-> E.ct, V |-> E.V, C |-> E.C] /\ sp' = NoSpace /\ cur' = NoCur
Linear(p, x, f) ==
  \E k \in Sp!Nearest(M, p) : LET pt == Sp!ClosestIn(M, k + 1, p).pt IN
    Abs(x * pt.d - 10000 * (f[1] * pt.d + SumSeq([j \in Dom(p) |-> f[j + 1] * pt.n[j]]))) <= 2 * pt.d
P1Ev ==
  /\ IsEvent("p1") /\ UNCHANGED <<sp, cur, M>> /\ E.res = "ok" /\ E.same = 1
  /\ IF Len(M.C) = 0 THEN E.values = [i \in Dom(E.pts) |-> 0] /\ \A i \in Dom(E.pts) : E.grads[i] = [j \in Dom(E.pts[i]) |-> 0]
     ELSE \A i \in Dom(E.pts) : Linear(E.pts[i], E.values[i], E.f) /\ \A j \in Dom(E.pts[i]) : Abs(E.grads[i][j] - 10000 * E.f[j + 1]) <= 1
TNext == New \/ BuildEv \/ ValuesEv \/ GradsEv \/ DirectEv \/ DirectGradEv \/ RawEv \/ MeshEv \/ P1Ev
TSpec == TInit /\ [][TNext]_<<l, sp, cur, M>>
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("STUCK " \o ToString(d)) /\ FALSE
=============================================================================
