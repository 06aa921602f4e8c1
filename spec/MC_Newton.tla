------------------------------- MODULE MC_Newton -----------------------------
(* The documented algorithm against an arbitrary function and Jacobian solver *)
(* (scripted values, failures, residuals that are not numbers).               *)
EXTENDS Newton, TLC, Json
CONSTANTS Fs, MaxEvals, MaxIters, WithNaN, Emit
VARIABLES s, pc, kind, script
mvars == <<s, pc, kind, script>>
Vals == {<<f>> : f \in Fs} \cup (IF WithNaN THEN {NaN} ELSE {})
Shorter(a) == IF a = Q THEN (Q \div 4) * 3 ELSE IF a = (Q \div 4) * 3 THEN Q \div 2 ELSE IF a = Q \div 2 THEN Q \div 4 ELSE a \div 4
MInit == \E tol2 \in {0, 1, 4}, m \in -1..MaxIters, ls \in {"none", "bt"} :
           /\ s = Start(<<0>>, tol2, m, ls) /\ pc = "eval" /\ kind = "none"
           /\ script = [x |-> <<0>>, tol2 |-> tol2, max |-> m, ls |-> ls, F |-> <<>>, J |-> <<>>]
Next1 == IF s.ph = "start" THEN s.x ELSE Point(s.x0, IF s.ph = "try" THEN Shorter(s.a) ELSE Q, s.d)
\* deep in a line search the environment only repeats itself
FVals == IF s.ph = "try" /\ s.a < Q \div 4 THEN {s.f} \cup {<<0>>} ELSE Vals
DoEval == /\ pc = "eval" /\ Len(script.F) < MaxEvals
          /\ \E f \in FVals : Eval(s, Next1, f, s') /\ script' = [script EXCEPT !.F = Append(@, f)]
          /\ UNCHANGED kind
          /\ pc' = IF s'.ph = "try" THEN (IF SmallStep(s'.a) THEN "fail" ELSE "eval") ELSE "check"
DoCheck == /\ pc = "check" /\ UNCHANGED <<s, script>>
           /\ IF s.f = NaN THEN pc' = "done" /\ kind' = "linesearch"
              ELSE IF Le(s.f, s.tol2) THEN pc' = "done" /\ kind' = "ok"
              ELSE IF s.max >= 0 /\ s.iters = s.max THEN pc' = "done" /\ kind' = "max"
              ELSE pc' = "jac" /\ UNCHANGED kind
DoJac == /\ pc = "jac"
         /\ \/ \E e \in {<<-1>>, <<1>>} : Jac(s, s.x, s.f, e, TRUE, s') /\ script' = [script EXCEPT !.J = Append(@, e)] /\ pc' = "eval" /\ UNCHANGED kind
            \/ Jac(s, s.x, s.f, <<>>, FALSE, s') /\ script' = [script EXCEPT !.J = Append(@, <<>>)] /\ pc' = "done" /\ kind' = "jacobian"
DoFail == pc = "fail" /\ pc' = "done" /\ kind' = "linesearch" /\ UNCHANGED <<s, script>>
DoStop == pc = "done" /\ pc' = "end" /\ UNCHANGED <<s, kind, script>>
MNext == DoEval \/ DoCheck \/ DoJac \/ DoFail \/ DoStop
MSpec == MInit /\ [][MNext]_mvars
(* ------------------------------ guarantees -------------------------------- *)
Done == pc = "done"
Accepted == Done => Return(s, kind, s.iters, s.x, s.f)
OnlyOne == Done => \A k \in {"ok", "max", "jacobian", "linesearch"} \ {kind} : ~Return(s, k, s.iters, s.x, s.f)
Success == Done /\ kind = "ok" => Le(s.f, s.tol2) /\ s.jacs = s.iters
Limit == s.max >= 0 => s.iters <= s.max /\ s.jacs <= s.max
Decrease == s.ls = "bt" /\ s.ph = "iter" /\ s.iters > 0 => Sq(s.f) < Sq(s.f0)
EmitInv == (Emit /\ pc = "end") => PrintT("CASE " \o ToJson(script))
=============================================================================
