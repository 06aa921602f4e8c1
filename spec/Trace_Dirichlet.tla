-------------------------- MODULE Trace_Dirichlet ---------------------------
EXTENDS Dirichlet, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, sd, sm, dm, v   \* sparse matrix, dense matrix, right-hand side
tvars == <<l, sd, sm, dm, v>>
E == Trace[l]
IsEvent(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
MapOf(trip) ==
  LET T == ToSet(trip)
      row == TLCEval([i \in {t[1] : t \in T} |-> {t \in T : t[1] = i}])
  IN TLCEval([k \in {<<t[1], t[2]>> : t \in T} |-> LET t == CHOOSE t \in row[k[1]] : t[2] = k[2] IN t[3]])
\* a dense matrix is given as its rows; entries that are not integers are only allowed on prescribed diagonals
DenseMap(rows) == [k \in {<<i - 1, j - 1>> : i, j \in Dom(rows)} |-> rows[k[1] + 1][k[2] + 1]]
TInit == l = 1 /\ sd = 1 /\ sm = EmptyMap /\ dm = EmptyMap /\ v = <<>>
New == IsEvent("new") /\ sd' = E.s /\ sm' = MapOf(E.m) /\ dm' = DenseMap(E.rows) /\ v' = E.v
Csr == /\ IsEvent("csr") /\ Cardinality({<<t[1], t[2]>> : t \in ToSet(E.m)}) = Len(E.m)
       /\ sm' = MapOf(E.m) /\ DirichletMat(sm, sm', Prescribed(E.nodes, sd)) /\ UNCHANGED <<sd, dm, v>>
Dense == IsEvent("dense") /\ dm' = DenseMap(E.rows) /\ DirichletMat(dm, dm', Prescribed(E.nodes, sd)) /\ UNCHANGED <<sd, sm, v>>
Rhs == IsEvent("rhs") /\ v' = E.v /\ DirichletRhs(v, v', Prescribed(E.nodes, sd)) /\ UNCHANGED <<sd, sm, dm>>
TNext == New \/ Csr \/ Dense \/ Rhs
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("STUCK " \o ToString(d)) /\ FALSE
=============================================================================
