-------------------------------- MODULE Newton -------------------------------
(* Newton's method with a line search as seen by the function it is given:    *)
(* evaluations, solves with the Jacobian, and the return.  Points are integer *)
(* vectors, directions are multiples d of Q = 2^22 so that a step length      *)
(* alpha appears as the integer a = alpha * Q:  x + alpha Q d = x + a d.      *)
EXTENDS Util
Q == 4194304
NaN == <<>>                                             \* a residual that is not a number
Sq(f) == SumSeq([i \in Dom(f) |-> f[i] * f[i]])
Le(f, tol2) == f # NaN /\ Sq(f) <= tol2
\* ls: "none" (full steps) or "bt" (backtracking)
Start(x, tol2, max, ls) == [ph |-> "start", x |-> x, f |-> <<>>, iters |-> 0, tol2 |-> tol2, max |-> max, ls |-> ls,
                            x0 |-> <<>>, f0 |-> <<>>, d |-> <<>>, a |-> 0, jacs |-> 0]
\* ph: start -> iter -> (jac) step -> iter ... ; "try" while the line search is still rejecting
\* sufficient decrease: |f|^2 <= (1 - c alpha) |f0|^2 with c = 1/10000; a step length between quarters is
\* judged by the quarters around it
Q4(a) == a \div (Q \div 4)
Up4(a) == IF Q4(a) * (Q \div 4) = a THEN Q4(a) ELSE Q4(a) + 1
Decreases(f, f0, q) == 40000 * Sq(f) <= (40000 - q) * Sq(f0)
MayAccept(f, f0, a) == f # NaN /\ f0 # NaN /\ Sq(f) < Sq(f0) /\ Decreases(f, f0, Q4(a))
MayReject(f, f0, a) == f = NaN \/ f0 = NaN \/ ~Decreases(f, f0, Up4(a))
SmallStep(a) == a < 42                                  \* about 1e-5
Point(x, a, d) == [i \in Dom(x) |-> x[i] + a * d[i]]
\* evaluation at point x giving f
Eval(s, x, f, t) ==
  CASE s.ph = "start" -> x = s.x /\ t = [s EXCEPT !.ph = "iter", !.f = f]
    [] s.ph = "step" /\ s.ls = "none" ->
         /\ x = Point(s.x0, Q, s.d)
         /\ t = [s EXCEPT !.ph = "iter", !.x = x, !.f = f, !.iters = @ + 1]
    [] s.ph \in {"step", "try"} /\ s.ls = "bt" ->
         \* the first trial is the full step, every later one is shorter
         LET k == IF \E i \in Dom(s.d) : s.d[i] # 0 THEN CHOOSE i \in Dom(s.d) : s.d[i] # 0 ELSE 0
             a == IF k = 0 THEN (IF s.ph = "step" THEN Q ELSE s.a - 1) ELSE (x[k] - s.x0[k]) \div s.d[k]
         IN /\ x = Point(s.x0, a, s.d)
            /\ IF s.ph = "step" THEN a = Q ELSE a > 0 /\ a < s.a
            /\ \/ MayAccept(f, s.f0, a) /\ t = [s EXCEPT !.ph = "iter", !.x = x, !.f = f, !.a = a, !.iters = @ + 1]
               \/ MayReject(f, s.f0, a) /\ t = [s EXCEPT !.ph = "try", !.x = x, !.f = f, !.a = a]
    [] OTHER -> FALSE
\* evaluating once more at the current point is harmless
EvalAny(s, x, f, t) == Eval(s, x, f, t) \/ (s.ph \in {"iter", "step", "try"} /\ x = s.x /\ f = s.f /\ t = s)
CanStep(s) == s.ph = "iter" /\ s.f # NaN /\ ~Le(s.f, s.tol2) /\ ~(s.max >= 0 /\ s.iters >= s.max)
\* sol = Q e solves J sol = f; the direction is -sol
Jac(s, x, rhs, e, ok, t) ==
  /\ CanStep(s) /\ x = s.x /\ rhs = s.f
  /\ t = IF ok THEN [s EXCEPT !.ph = "step", !.x0 = s.x, !.f0 = s.f, !.d = [i \in Dom(e) |-> -e[i]], !.a = Q, !.jacs = @ + 1]
         ELSE [s EXCEPT !.ph = "jacfail", !.jacs = @ + 1]
Return(s, kind, iters, x, f) ==
  /\ x = s.x /\ f = s.f
  /\ CASE kind = "ok" -> s.ph = "iter" /\ Le(s.f, s.tol2) /\ iters = s.iters
       [] kind = "max" -> s.ph = "iter" /\ s.f # NaN /\ ~Le(s.f, s.tol2) /\ s.max >= 0 /\ s.iters = s.max /\ iters = s.max
       [] kind = "jacobian" -> s.ph = "jacfail"
       [] kind = "linesearch" -> (s.ph = "try" /\ (SmallStep(s.a) \/ \A i \in Dom(s.d) : s.d[i] = 0)) \/ (s.ph = "iter" /\ s.f = NaN)
       [] OTHER -> FALSE
=============================================================================
