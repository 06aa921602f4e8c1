-------------------------------- MODULE Trace_CG -----------------------------
(* Recorded calls of the real solver against CG.                              *)
EXTENDS CG, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, spec     \* spec: what is known about operator, preconditioner and criterion
tvars == <<l, s, spec>>
E == Trace[l]
IsEvent(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TInit == l = 1 /\ s = Fresh(<<>>, <<>>, -1) /\ spec = [A |-> <<>>, tol2 |-> <<>>]
\* scaled matrix-vector product: entries of A are true integers
MatVec(A, v) == [i \in Dom(A) |-> VDot(A[i], v)]
Solve == /\ IsEvent("solve") /\ s' = Fresh(E.b, E.x, E.max)
         /\ spec' = [A |-> E.A, tol2 |-> E.tol2]
Known(in, out) == IF spec.A = <<>> \/ E.ok = 0 THEN TRUE ELSE out = MatVec(spec.A, in)
AStep(t) == IF s.ph = "init" THEN First(s, E.in, E.out, E.ok = 1, t)
            ELSE IF E.ok = 1 THEN Apply(s, E.in, E.out, t) ELSE ApplyFails(s, E.in, t)
OpA == IsEvent("A") /\ UNCHANGED spec /\ Known(E.in, E.out) /\ AStep(s')
OpP == IsEvent("P") /\ UNCHANGED spec /\ Prec(s, E.in, E.out, E.ok = 1, s')
\* the library's relative criterion: |r|^2 <= tol^2 |b|^2 with tol^2 = num/den
RelOK == IF spec.tol2 = <<>> THEN TRUE ELSE (E.ans = IF VDot(E.r, E.r) * spec.tol2[2] <= spec.tol2[1] * VDot(E.b, E.b) THEN "yes" ELSE "no")
OpC == IsEvent("C") /\ UNCHANGED spec /\ E.bn2 = VDot(s.b, s.b) /\ RelOK /\ Crit(s, E.x, E.b, E.it, E.r, E.ans, s')
OpR == IsEvent("R") /\ UNCHANGED spec /\ Reset(s, E.x, E.b, s')
Ret == IsEvent("return") /\ UNCHANGED spec /\ Return(s, E.kind, E.iters, E.x) /\ (E.kind = "max" => E.max = s.maxit)
       /\ s' = [s EXCEPT !.ph = "done"]
TNext == Solve \/ OpA \/ OpP \/ OpC \/ OpR \/ Ret
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("STUCK " \o ToString(d)) /\ FALSE
=============================================================================
