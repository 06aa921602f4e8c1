---------------------------- MODULE Trace_Calculus -----------------------------
EXTENDS Calculus, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
E == Trace[l]
TInit == l = 1
IsEvent(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
\* the function itself must have been consistent, and what the case says it is
Fair == /\ \A a, b \in DOMAIN E.calls : E.calls[a][1] = E.calls[b][1] => E.calls[a][2] = E.calls[b][2]
        /\ E.kind = 1 => \A k \in DOMAIN E.calls : \A i \in DOMAIN E.calls[k][2] : E.calls[k][2][i] = Quadratic(E.co[i], E.calls[k][1])
Derivs == /\ E.ok = 1 /\ E.after = E.x /\ E.keep = 1 /\ Fair
          /\ OnlyThere(E.calls, E.x, E.h) /\ IsJacobian(E.calls, E.x, E.h, E.m, E.r)
          /\ E.kind = 1 => \A i \in 1..E.m, j \in 1..E.n : E.r[i][j] = Exact(E.co[i], E.x, j)
DoJac == IsEvent("jac") /\ (Derivs = TRUE)
DoJacFd == IsEvent("jacfd") /\ (Derivs = TRUE)
DoGrad == IsEvent("grad") /\ E.m = 1 /\ (Derivs = TRUE)
Built == /\ E.ok = 1 /\ E.r.dim = E.m /\ E.r.f = [i \in 1..E.m |-> i] /\ E.r.s = [i \in 1..E.n |-> 9 + i]
         /\ E.r.err = (IF E.fail = 1 THEN "scripted" ELSE "")
         /\ E.log = << <<"f", E.x>>, <<"j", E.x, E.r.b>> >> /\ E.r.b = [i \in 1..E.m |-> 128 * (i - 1)]
DoBuilt == IsEvent("built") /\ (Built = TRUE)
\* numbers for which the way there and back would lose digits
DoKept == IsEvent("kept") /\ ((E.ok = 1 /\ E.after = E.before) = TRUE)
TNext == DoKept \/  DoJac \/ DoJacFd \/ DoGrad \/ DoBuilt
TSpec == TInit /\ [][TNext]_l
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("STUCK " \o ToString(d)) /\ FALSE
=============================================================================
