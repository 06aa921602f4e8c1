------------------------------- MODULE Calculus --------------------------------
(* Central differences (C30). A function is only known through its recorded calls,  *)
(* pairs <<point, values>>. Points and the step are in units of 1/64, values and     *)
(* derivatives in units of 1/4096.                                                   *)
EXTENDS Util
Shift(x, j, h) == [x EXCEPT ![j] = @ + h]
Points(x, h) == UNION {{Shift(x, j, h), Shift(x, j, 0 - h)} : j \in DOMAIN x}
\* the value the function had at p (calls at equal points agree)
CalledAt(calls, p) == \E k \in DOMAIN calls : calls[k][1] = p
ValueAt(calls, p) == calls[CHOOSE k \in DOMAIN calls : calls[k][1] = p][2]
\* column j: (f(x + h e_j) - f(x - h e_j)) / 2h
IsCentral(calls, x, h, r, j) ==
  LET a == Shift(x, j, h)  b == Shift(x, j, 0 - h) IN
  /\ CalledAt(calls, a) /\ CalledAt(calls, b)
  /\ LET fa == ValueAt(calls, a)  fb == ValueAt(calls, b) IN
     \A i \in DOMAIN r : r[i][j] * 2 * h = (fa[i] - fb[i]) * 64
IsJacobian(calls, x, h, m, r) ==
  /\ Len(r) = m /\ \A i \in DOMAIN r : Len(r[i]) = Len(x)
  /\ \A j \in DOMAIN x : IsCentral(calls, x, h, r, j)
\* the caller's function is only asked where the scheme needs it
OnlyThere(calls, x, h) == \A k \in DOMAIN calls : calls[k][1] \in Points(x, h)
\* the exact derivative of  c + a . x + sum b_j x_j^2 + w x_1 x_n  (co = <<c>> \o a \o b \o <<w>>)
Exact(co, x, j) ==
  LET n == Len(x)
      mix == IF n = 1 THEN 2 * co[2 + 2 * n] * x[1] ELSE IF j = 1 THEN co[2 + 2 * n] * x[n] ELSE IF j = n THEN co[2 + 2 * n] * x[1] ELSE 0
  IN co[1 + j] * 4096 + 64 * (2 * co[1 + n + j] * x[j] + mix)
Quadratic(co, x) ==
  LET n == Len(x) IN co[1] * 4096 + (IF n = 0 THEN 0 ELSE co[2 + 2 * n] * x[1] * x[n])
                     + SumSeq([j \in 1..n |-> co[1 + j] * x[j] * 64 + co[1 + n + j] * x[j] * x[j]])
=============================================================================
