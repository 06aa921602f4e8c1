--------------------------- MODULE Trace_Elements ----------------------------
(* Q = 12; coordinates of vertices are over 24. *)
EXTENDS Elements, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ct, V
E == Trace[l]
IsEvent(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TInit == l = 1 /\ ct = "seg2" /\ V = <<>>
\* nodes as given, or those of the straight element; the reference element
Nodes1(c, v, via) == IF via = "lower" THEN [I \in 1..NN(c) |-> LET x == Mean(v, Parents(c)[I], 24) IN [j \in Dom(x) |-> x[j] \div 24]] ELSE v
New ==
  /\ IsEvent("element") /\ ct' = E.ct /\ V' = E.nodes /\ E.n = NN(E.ct)
  /\ E.nodes = Nodes1(E.ct, E.V, E.via)
  /\ E.via = "ref" => E.nodes = [I \in 1..NN(E.ct) |-> VScale(2, RefNode(E.ct, I))]
  /\ E.diam2 = Diam2(E.ct, E.V)
At ==
  /\ IsEvent("at") /\ UNCHANGED <<ct, V>> /\ E.same = 1
  /\ E.b = Basis(ct, E.k) /\ E.g = Grads(ct, E.k)
  /\ E.x = MapTo(ct, V, E.k) /\ E.J = Jac(ct, V, E.k)
  /\ \A I \in 1..NN(ct) : (E.k = RefNode(ct, I) /\ Straight(ct, V)) => E.x = VScale(Den(Base[ct]), V[I])
\* the inverse map answers with the point again (on the grid 1/12e6); points off a surface are projected to it
Inv == /\ IsEvent("inverse") /\ UNCHANGED <<ct, V>> /\ E.res = "ok" /\ \A j \in Dom(E.k) : Abs(E.xi[j] - 1000000 * E.k[j]) <= 2
       /\ E.d = 1000000 * Abs(E.perp)
\* unit, in the direction of the normal
Nrm == /\ IsEvent("normal") /\ UNCHANGED <<ct, V>>
       /\ LET d == NormalDir(ct, V)  n == E.n IN
          /\ Abs(Sq(n) - 100000000) <= 40000 /\ SumSeq([i \in Dom(d) |-> n[i] * d[i]]) > 0
          /\ \A i, j \in Dom(d) : Abs(n[i] * d[j] - n[j] * d[i]) <= Abs(d[i]) + Abs(d[j])
Lookup ==
  /\ IsEvent("lookup") /\ UNCHANGED <<ct, V>>
  /\ IF \A i \in Dom(E.idx) : E.idx[i] < Len(E.all) THEN E.res = "ok" /\ E.nodes = [i \in Dom(E.idx) |-> E.all[E.idx[i] + 1]] ELSE E.res = "none"
Vars ==
  /\ IsEvent("vars") /\ UNCHANGED <<ct, V>>
  /\ IF \A i \in Dom(E.idx) : E.s * (E.idx[i] + 1) <= Len(E.u)
     THEN E.res = "ok" /\ E.out = [i \in Dom(E.idx) |-> [j \in 1..E.s |-> E.u[E.s * E.idx[i] + j]]]
     ELSE E.res = "panic"
TNext == New \/ At \/ Inv \/ Nrm \/ Lookup \/ Vars
TSpec == TInit /\ [][TNext]_<<l, ct, V>>
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("STUCK " \o ToString(d)) /\ FALSE
=============================================================================
