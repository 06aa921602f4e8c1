-------------------------- MODULE Trace_Operators -----------------------------
EXTENDS Operators, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, mesh, pts, data, u
E == Trace[l]
IsEvent(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
NoMesh == [el |-> "tri3", V |-> <<>>, C |-> <<>>, m |-> <<>>, s |-> 1, d |-> 1, F |-> 1]
NoData == [cell |-> <<>>, poly |-> <<>>]
TInit == l = 1 /\ mesh = NoMesh /\ pts = <<>> /\ data = NoData /\ u = <<>>
New ==
  /\ IsEvent("mesh")
  /\ mesh' = [el |-> E.el, V |-> E.V, C |-> E.C, m |-> E.m, s |-> E.s, d |-> E.d, F |-> E.F]
  /\ E.el \in Surface => (\A c \in Dom(E.C) : MeasureOk(E.el, CellVerts(mesh', c), E.m[c])) = TRUE
  /\ pts' = TLCEval(Points(mesh', E.d))
  /\ data' = NoData /\ u' = <<>>
DataEv == IsEvent("data") /\ data' = [cell |-> E.cell, poly |-> E.poly] /\ Len(E.cell) = Len(mesh.C) /\ UNCHANGED <<mesh, pts, u>>
UEv == IsEvent("u") /\ u' = E.u /\ Len(E.u) = mesh.s /\ UNCHANGED <<mesh, pts, data>>
(* what the operations return *)
D == IF mesh.V = <<>> THEN 1 ELSE Len(mesh.V[1])
\* observed numbers are multiplied by a common denominator of the exact integrals
Scaled(x) == ((mesh.F % P) * x) % P
Flat == \E c \in Dom(mesh.C) : Degenerate(mesh.el, CellVerts(mesh, c))
Op(e) == IF e.oper.kind = "laplace" THEN [kind |-> "linear", A |-> [i \in 1..D |-> [j \in 1..D |-> IF i = j THEN 1 ELSE 0]], N |-> <<<<1>>>>] ELSE e.oper
Kappa(e, c, x) == IF e.op \in {"hess", "grad", "energy"} /\ e.oper.kind = "laplace" THEN 1 ELSE Coeff(data, c, x)
SymOp(e) == e.oper.kind \in {"laplace", "quartic"} \/ ((\A i, j \in Dom(e.oper.A) : e.oper.A[i][j] = e.oper.A[j][i]) /\ (\A i, j \in Dom(e.oper.N) : e.oper.N[i][j] = e.oper.N[j][i]))
Expected(e) ==
  LET gu == TLCEval(Grads(u, D)) IN
  CASE e.op = "energy" -> SumOn(pts, LAMBDA c, x : (Kappa(e, c, x) * Energy4(Op(e), EvG(gu, x))) % P)
    [] e.op = "grad" -> LET gv == TLCEval(Grads(e.v, D)) IN SumOn(pts, LAMBDA c, x : (Kappa(e, c, x) * First(Op(e), EvG(gu, x), EvG(gv, x))) % P)
    [] e.op = "hess" -> LET gv == TLCEval(Grads(e.v, D))  gw == TLCEval(Grads(e.w, D)) IN
                        SumOn(pts, LAMBDA c, x : (Kappa(e, c, x) * Second(Op(e), EvG(gu, x), EvG(gw, x), EvG(gv, x))) % P)
    [] e.op = "mass" -> SumOn(pts, LAMBDA c, x : (Kappa(e, c, x) * DotP(Vals(u, x), Vals(e.v, x))) % P)
    [] e.op = "source" -> SumOn(pts, LAMBDA c, x : (Kappa(e, c, x) * DotP(Vals(e.f, x), Vals(e.v, x))) % P)
    [] e.op = "int" ->
         (CASE e.dep = "x" -> SumOn(pts, LAMBDA c, x : Ev(e.q, x))
           [] e.dep \in {"u", "vu"} -> SumOn(pts, LAMBDA c, x : (Ev(e.q, x) + Ev(u[e.i], x) * Ev(u[e.j], x)) % P)
           [] e.dep = "vg" -> SumOn(pts, LAMBDA c, x : (Ev(e.q, x) + Ev(gu[e.i][e.k], x) * Ev(gu[e.j][e.l], x)) % P)
           [] e.dep = "vug" -> SumOn(pts, LAMBDA c, x : (Ev(e.q, x) + Ev(u[e.i], x) * Ev(gu[e.j][e.k], x)) % P))
    [] e.op = "err" ->
         IF e.norm = "L2" THEN SumOn(pts, LAMBDA c, x : LET d == [i \in Dom(u) |-> (Ev(u[i], x) + P - Ev(e.w[i], x)) % P] IN DotP(d, d))
         ELSE LET gw == TLCEval(Grads(e.w, D)) IN
              SumOn(pts, LAMBDA c, x : SumP([i \in Dom(u) |-> LET d == [k \in 1..D |-> (Ev(gu[i][k], x) + P - Ev(gw[i][k], x)) % P] IN DotP(d, d)]))
\* gradients need an invertible map
NeedsInverse(e) == e.op \in {"hess", "grad", "energy"} \/ (e.op = "int" /\ e.dep \in {"vu", "vg", "vug"}) \/ (e.op = "err" /\ e.norm = "H1")
BadArgs(e) == e.op = "int" /\ e.bad # 0
Call ==
  /\ l <= Len(Trace) /\ E.op \in {"energy", "grad", "hess", "mass", "source", "int", "err"} /\ l' = l + 1 /\ UNCHANGED <<mesh, pts, data, u>>
  /\ IF BadArgs(E) THEN E.res = "panic"
     ELSE IF NeedsInverse(E) /\ Flat THEN E.res \in (IF E.op = "err" THEN {"err", "panic"} ELSE {"err"})
     ELSE E.res = "ok" /\ E.r = Scaled(Expected(E)) /\ ((E.op = "mass" \/ (E.op = "hess" /\ SymOp(E))) => E.symm = 1)
TNext == New \/ DataEv \/ UEv \/ Call
TSpec == TInit /\ [][TNext]_<<l, mesh, pts, data, u>>
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("STUCK " \o ToString(d)) /\ FALSE
=============================================================================
