-------------------------- MODULE Trace_Quadrature ----------------------------
EXTENDS Quadrature, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, last
E == Trace[l]
IsEvent(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
\* last: strength, number of points and availability of the last selection by strength
TInit == l = 1 /\ last = [s |-> -1, n |-> 0, ok |-> TRUE]
New == IsEvent("session") /\ last' = [s |-> -1, n |-> 0, ok |-> TRUE]
Shape(e) == e.n = e.np /\ e.inside = 1 /\ e.integ = 1
\* selection in order of growing strengths: available up to the strongest, exact, no larger than the rule of a stronger request
Select ==
  /\ IsEvent("select") /\ E.s > last.s
  /\ E.s <= Strongest[E.dom] => E.res = "ok"
  /\ E.res = "ok" => last.ok /\ Shape(E) /\ E.pos = 1 /\ E.n >= last.n /\ RuleExact(E.dom, "total", E.s, E.m, E.t)
  /\ E.res \in {"ok", "none"}
  /\ last' = [s |-> E.s, n |-> E.n, ok |-> E.res = "ok"]
\* one-dimensional and tensor rules of n points per dimension
Gauss ==
  /\ IsEvent("gauss") /\ UNCHANGED last
  /\ IF E.k = 0 THEN E.res = "panic"
     ELSE E.res = "ok" /\ Shape(E) /\ E.pos = 1 /\ E.n = Pow(E.k, Dim[E.dom]) /\ E.s = 2 * E.k - 1 /\ RuleExact(E.dom, "box", E.s, E.m, E.t)
Lobatto ==
  /\ IsEvent("lobatto") /\ UNCHANGED last
  /\ E.k \in (2..32) \cup {64, 128, 256, 512} => E.res = "ok"
  /\ IF E.res = "ok" THEN E.k >= 2 /\ Shape(E) /\ E.pos = 1 /\ E.ends = 1 /\ E.n = E.k /\ E.s = 2 * E.k - 3 /\ RuleExact("seg", "box", E.s, E.m, E.t)
     ELSE E.res = "none"
\* canonical rules of an element of order q: products of basis functions, or of their gradients
ElDom == [tri3 |-> "tri", tri6 |-> "tri", quad4 |-> "quad", quad9 |-> "quad", tet4 |-> "tet", tet10 |-> "tet", tet20 |-> "tet", hex8 |-> "hex", hex20 |-> "hex", hex27 |-> "hex"]
ElOrder == [tri3 |-> 1, tri6 |-> 2, quad4 |-> 1, quad9 |-> 2, tet4 |-> 1, tet10 |-> 2, tet20 |-> 3, hex8 |-> 1, hex20 |-> 2, hex27 |-> 2]
Needed(el, what) == IF ElDom[el] \in {"tri", "tet"} THEN IF what = "mass" THEN 2 * ElOrder[el] ELSE 2 * ElOrder[el] - 2 ELSE 2 * ElOrder[el]
Canonical ==
  /\ IsEvent("canonical") /\ UNCHANGED last /\ E.res = "ok" /\ E.same = 1 /\ Shape(E) /\ E.dom = ElDom[E.el] /\ E.s = Needed(E.el, E.what)
  /\ RuleExact(E.dom, IF E.dom \in {"tri", "tet"} THEN "total" ELSE "box", E.s, E.m, E.t)
\* subdivision: every piece carries an exact rule of its own (moments in the coordinates of the piece, relative to its size)
Subdivided ==
  /\ IsEvent("subdivided") /\ UNCHANGED last
  /\ IF E.k = 0 THEN E.res = "panic"
     ELSE /\ E.res = "ok" /\ Shape(E) /\ E.n = E.base * (IF E.dom = "tri" THEN E.k * E.k ELSE E.k)
          /\ RuleExact(E.dom, "total", E.s, E.m, E.t)
          /\ Len(E.pieces) = (IF E.dom = "tri" THEN E.k * E.k ELSE E.k)
          /\ \A i \in Dom(E.pieces) : E.pieces[i].n = E.base /\ RuleExact(E.dom, "total", E.s, E.pieces[i].m, E.t)
TNext == New \/ Select \/ Gauss \/ Lobatto \/ Canonical \/ Subdivided
TSpec == TInit /\ [][TNext]_<<l, last>>
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("STUCK " \o ToString(d)) /\ FALSE
=============================================================================
