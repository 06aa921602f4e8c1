--------------------------------- MODULE MC_CG -------------------------------
(* Design check: the algorithm with an arbitrary environment (any operator,   *)
(* preconditioner and criterion answers, failures included) keeps to the      *)
(* protocol, and the protocol implies the documented guarantees.  Also emits  *)
(* the scripts of the environment for replay in the real solver.              *)
EXTENDS CG, TLC, Json
CONSTANTS Dim, K, U, MaxIters, Emit
VARIABLES s, pc, script, kind
mvars == <<s, pc, script, kind>>
Vecs == [1..Dim -> {v * U : v \in -K..K}]
Alphas == {<<1,1>>, <<2,1>>, <<1,2>>}        \* steps that keep everything on the grid
Betas == {<<0,1>>, <<1,1>>, <<2,1>>, <<1,2>>, <<-1,1>>}
MInit == \E b \in Vecs, x \in Vecs, m \in -1..MaxIters :
           /\ s = Fresh(b, x, m)
           /\ pc = "first" /\ kind = "none"
           /\ script = [b |-> b, x |-> x, max |-> m, A |-> <<>>, P |-> <<>>, C |-> <<>>]
LogA(v) == [script EXCEPT !.A = Append(@, v)]
LogP(v) == [script EXCEPT !.P = Append(@, v)]
LogC(v) == [script EXCEPT !.C = Append(@, v)]
Goto(l) == pc' = l /\ kind' = kind
End(k) == pc' = "done" /\ kind' = k
Err == <<>>
\* the order of calls of the implementation
DoFirst == /\ pc = "first"
           /\ \/ \E out \in Vecs : First(s, s.x, out, TRUE, s') /\ script' = LogA(out) /\ Goto("prec")
              \/ First(s, s.x, <<>>, FALSE, s') /\ script' = LogA(Err) /\ End("operator")
DoPrec == /\ pc = "prec"
          /\ \/ \E out \in Vecs : /\ \/ s.n = 0
                                     \/ \E be \in Betas : VDot(out, s.r) * be[2] = s.zTr * be[1]
                                  /\ Prec(s, s.r, out, TRUE, s') /\ script' = LogP(out)
                                  /\ IF Zero(s.b) THEN End("ok") ELSE Goto("crit")
             \/ Prec(s, s.r, <<>>, FALSE, s') /\ script' = LogP(Err) /\ End("preconditioner")
DoCrit == /\ pc = "crit"
          /\ \E a \in {"yes", "no", "fail"} :
               /\ Crit([s EXCEPT !.resets = 1], s.x, s.b, s.n, s.r, a, s')
               /\ script' = LogC(a)
               /\ CASE a = "yes" -> End("ok") [] a = "fail" -> End("criterion")
                    [] OTHER -> IF AtLimit(s) THEN End("max") ELSE Goto("apply")
Dirn == IF s.n = 0 THEN s.z ELSE [i \in 1..Dim |-> s.z[i] + (VDot(s.z, s.r) * s.p[i]) \div s.zTr]
DoApply == /\ pc = "apply" /\ s.n < MaxIters
           /\ \/ \E out \in Vecs :
                    LET pAp == VDot(Dirn, out) zr == VDot(s.z, s.r) IN
                    /\ \/ pAp <= 0 \/ zr <= 0
                       \/ \E al \in Alphas : zr * al[2] = pAp * al[1]
                    /\ Apply(s, Dirn, out, s') /\ script' = LogA(out)
                    /\ IF pAp <= 0 THEN End("indefinite_op") ELSE IF zr <= 0 THEN End("indefinite_prec") ELSE Goto("prec")
              \/ ApplyFails(s, Dirn, s') /\ script' = LogA(Err) /\ End("operator")
DoStop == pc = "done" /\ pc' = "end" /\ UNCHANGED <<s, script, kind>>
MNext == DoFirst \/ DoPrec \/ DoCrit \/ DoApply \/ DoStop
MSpec == MInit /\ [][MNext]_mvars
(* ------------------------------ guarantees -------------------------------- *)
Done == pc = "done"
Accepted == Done => Return(s, kind, s.n, IF kind = "ok" /\ Zero(s.b) THEN Zeros(Dim) ELSE s.x)
NeverStuck == pc # "end" /\ ~(pc = "apply" /\ s.n >= MaxIters) => ENABLED MNext
SuccessConverged == Done /\ kind = "ok" => Zero(s.b) \/ s.conv
OneApplyPerIter == s.err = "none" /\ pc # "first" => s.applies = s.n + 1
Limit == s.maxit >= 0 => s.n <= s.maxit
LimitExact == Done /\ kind = "max" => s.n = s.maxit /\ ~s.conv
AtOnce == Zero(s.b) => s.n = 0
Unique == Done => \A k \in {"ok", "max", "operator", "preconditioner", "criterion"} \ {kind} : ~Return(s, k, s.n, s.x) \/ (k = "ok" /\ Zero(s.b))
EmitInv == (Emit /\ pc = "end") => PrintT("CASE " \o ToJson(script))
=============================================================================
