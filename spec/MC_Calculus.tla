------------------------------ MODULE MC_Calculus ------------------------------
(* The scheme as it works in place: the caller's point is moved along one           *)
(* coordinate at a time, the two values go to two buffers, and the point must be    *)
(* put back. The function is arbitrary: it answers anything, but the same at the    *)
(* same point. `Bug` switches on two ways to get it wrong.                          *)
EXTENDS Calculus, TLC, Json
CONSTANTS N, M, H, Vals, Quad, Bug, Emit
VARIABLES x, x0, j, pc, calls, r, co
mvars == <<x, x0, j, pc, calls, r, co>>
Coefs == IF Quad THEN [1..(2 * N + 2) -> {0 - 1, 0, 2}] ELSE {<<>>}
MInit == /\ x0 \in [1..N -> {0 - 64, 0, 96}] /\ x = x0 /\ j = 1 /\ pc = IF N = 0 THEN "done" ELSE "plus"
         /\ calls = <<>> /\ r = [i \in 1..M |-> [k \in 1..N |-> 7777]] /\ co \in [1..M -> Coefs]
Ask(p) == IF CalledAt(calls, p) THEN UNCHANGED calls
          ELSE IF Quad THEN calls' = Append(calls, <<p, [i \in 1..M |-> Quadratic(co[i], p)]>>)
          ELSE \E v \in [1..M -> Vals] : calls' = Append(calls, <<p, v>>)
Plus == pc = "plus" /\ pc' = "minus" /\ x' = Shift(x, j, H) /\ Ask(x') /\ UNCHANGED <<x0, j, r, co>>
Minus == pc = "minus" /\ pc' = "store" /\ x' = Shift(x, j, 0 - 2 * H) /\ Ask(x') /\ UNCHANGED <<x0, j, r, co>>
Store == /\ pc = "store" /\ UNCHANGED <<x0, calls, co>>
         /\ x' = (IF Bug = "norestore" THEN x ELSE Shift(x, j, H))
         /\ LET fa == ValueAt(calls, Shift(x, j, 2 * H))  fb == ValueAt(calls, x) IN
            r' = [i \in 1..M |-> [r[i] EXCEPT ![j] = ((IF Bug = "add" THEN @ ELSE 0) + ((fa[i] - fb[i]) * 64) \div (2 * H))]]
         /\ j' = j + 1 /\ pc' = IF j = N THEN "done" ELSE "plus"
Stop == pc = "done" /\ pc' = "end" /\ UNCHANGED <<x, x0, j, calls, r, co>>
MNext == Plus \/ Minus \/ Store \/ Stop
MSpec == MInit /\ [][MNext]_mvars
Restored == pc = "done" => x = x0
Right == pc = "done" => IsJacobian(calls, x0, H, M, r)
Asked == OnlyThere(calls, x0, H) /\ Len(calls) <= 2 * N
ExactForQuadratics == (Quad /\ pc = "done") => \A i \in 1..M, k \in 1..N : r[i][k] = Exact(co[i], x0, k)
\* what a forward difference would give is something else
ForwardDiffers == (Quad /\ pc = "done") => \A i \in 1..M, k \in 1..N :
   (Quadratic(co[i], Shift(x0, k, H)) - Quadratic(co[i], x0)) * 64 = Exact(co[i], x0, k) * H + 64 * (H * H * (co[i][1 + N + k] + IF N = 1 THEN co[i][2 + 2 * N] ELSE 0))
EmitInv == (Emit /\ pc = "end") => PrintT("CASE " \o ToJson([n |-> N, m |-> M, x |-> x0, co |-> co]))
=============================================================================
