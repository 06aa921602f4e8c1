--------------------------------- MODULE CG ----------------------------------
(* The conjugate gradient protocol as seen by the operator A, preconditioner  *)
(* P and stopping criterion C it is given: an exact state machine over        *)
(* integer vectors (real values times a common scale).  Its steps are the     *)
(* calls of A, P and C and the return; the vectors of the recurrence are      *)
(* determined by cross-multiplied equations, so no division is needed.        *)
EXTENDS Util
VDot(a, b) == SumSeq([i \in Dom(a) |-> a[i] * b[i]])
VSub(a, b) == [i \in Dom(a) |-> a[i] - b[i]]
VAdd(a, b) == [i \in Dom(a) |-> a[i] + b[i]]
Zero(a) == \A i \in Dom(a) : a[i] = 0
Zeros(n) == [i \in 1..n |-> 0]
\* solver state: phase is "init" (nothing applied), "run", or "done"
\*   x, r, p, z  vectors of the current iterate; zk/ck: has z been computed / the criterion been asked for it
Fresh(b, x, maxit) ==
  [ph |-> "init", n |-> 0, b |-> b, x |-> x, r |-> <<>>, z |-> <<>>, p |-> <<>>, zTr |-> 0, zk |-> FALSE, ck |-> FALSE,
   conv |-> FALSE, maxit |-> maxit, resets |-> 0, applies |-> 0, err |-> "none"]
Running(s) == s.ph = "run" /\ s.err = "none" /\ ~s.conv
AtLimit(s) == s.maxit >= 0 /\ s.n >= s.maxit
\* criterion reset: once, before it is asked
Reset(s, x, b, t) == s.err = "none" /\ s.resets = 0 /\ s.n = 0 /\ ~s.ck /\ x = s.x /\ b = s.b /\ t = [s EXCEPT !.resets = 1]
\* first operator application: r = b - A x
First(s, in, out, ok, t) ==
  /\ s.ph = "init" /\ s.err = "none" /\ in = s.x
  /\ t = IF ok THEN [s EXCEPT !.ph = "run", !.r = VSub(s.b, out), !.applies = 1]
         ELSE [s EXCEPT !.err = "operator", !.applies = 1]
\* preconditioner: z = P r, once per iterate
Prec(s, in, out, ok, t) ==
  /\ Running(s) /\ ~s.zk /\ in = s.r
  /\ t = IF ~ok THEN [s EXCEPT !.err = "preconditioner"] ELSE [s EXCEPT !.z = out, !.zk = TRUE]
\* criterion, once per iterate: sees the operator's current x, b, norm of b, iteration count and residual
Crit(s, x, b, it, res, answer, t) ==
  /\ Running(s) /\ ~s.ck /\ s.resets = 1 /\ x = s.x /\ b = s.b /\ it = s.n /\ res = s.r
  /\ t = CASE answer = "yes" -> [s EXCEPT !.ck = TRUE, !.conv = TRUE]
           [] answer = "no" -> [s EXCEPT !.ck = TRUE]
           [] OTHER -> [s EXCEPT !.err = "criterion"]
\* p: the direction applied next; (p - z) zTr_old = (z.r) p_old, or z for the first iteration
Direction(s, p) == IF s.n = 0 THEN p = s.z
                   ELSE LET zr == VDot(s.z, s.r) IN
                        Len(p) = Len(s.z) /\ \A i \in Dom(p) : (p[i] - s.z[i]) * s.zTr = zr * s.p[i]
\* operator application of an iteration, and the update it makes possible
CanApply(s) == Running(s) /\ s.zk /\ s.ck /\ ~AtLimit(s) /\ ~Zero(s.b)
ApplyFails(s, p, t) == CanApply(s) /\ Direction(s, p) /\ t = [s EXCEPT !.err = "operator", !.applies = @ + 1]
Apply(s, p, out, t) ==
  /\ CanApply(s) /\ Direction(s, p)
  /\ LET pAp == VDot(p, out) zr == VDot(s.z, s.r) IN
     IF pAp <= 0 \/ zr <= 0
     THEN t = [s EXCEPT !.err = IF pAp <= 0 /\ zr <= 0 THEN "indefinite" ELSE IF pAp <= 0 THEN "indefinite_op" ELSE "indefinite_prec", !.applies = @ + 1]
     ELSE t = [s EXCEPT !.p = p, !.zTr = zr, !.applies = @ + 1, !.n = @ + 1, !.zk = FALSE, !.ck = FALSE,
                        !.x = [i \in Dom(p) |-> s.x[i] + (zr * p[i]) \div pAp],          \* exact by the choice of A and P
                        !.r = [i \in Dom(p) |-> s.r[i] - (zr * out[i]) \div pAp]]
\* returning
Return(s, kind, iters, x) ==
  /\ iters = s.n
  /\ \/ kind = "ok" /\ s.err = "none" /\ IF Zero(s.b) THEN s.n = 0 /\ Zero(x) /\ Len(x) = Len(s.b) ELSE s.conv /\ x = s.x
     \/ kind = "max" /\ Running(s) /\ s.ck /\ AtLimit(s) /\ x = s.x /\ ~Zero(s.b)
     \/ kind \in {"operator", "preconditioner", "criterion"} /\ s.err = kind /\ x = s.x
     \/ kind = "indefinite_op" /\ s.err \in {"indefinite_op", "indefinite"} /\ x = s.x
     \/ kind = "indefinite_prec" /\ s.err \in {"indefinite_prec", "indefinite"} /\ x = s.x
     \/ kind = "indefinite_prec" /\ Running(s) /\ s.zk /\ s.ck /\ ~AtLimit(s) /\ VDot(s.z, s.r) <= 0 /\ x = s.x
=============================================================================
