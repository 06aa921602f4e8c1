--------------------------- MODULE MC_NestedVec ----------------------------
(* Bounded exhaustive exploration of NestedVec.  With Emit = TRUE every      *)
(* behaviour of exactly MaxSteps steps is printed as JSON for replay.        *)
EXTENDS NestedVec, TLC, Json
CONSTANTS Vals, MaxLen, MaxSteps, Emit

VARIABLE hist
mvars == <<vars, hist>>

Arrays == UNION {[1..n -> Vals] : n \in 0..MaxLen}
Ev(op, a, i, j, x) == [op |-> op, a |-> a, i |-> i, j |-> j, x |-> x]
Rec(e) == hist' = IF Emit THEN Append(hist, e) ELSE Append(hist, 0)

MInit == Init /\ hist = <<>>
\* a last step of its own, so that simulation emits each behaviour once
Stop == /\ Emit /\ Len(hist) = MaxSteps
        /\ UNCHANGED vars /\ Rec(Ev("stop", <<>>, 0, 0, 0))
Step ==
  /\ Len(hist) < MaxSteps
  /\ \/ \E a \in Arrays : Push(a) /\ Rec(Ev("push", a, 0, 0, 0))
     \/ Begin /\ Rec(Ev("begin", <<>>, 0, 0, 0))
     \/ \E x \in Vals : PushSingle(x) /\ Rec(Ev("single", <<>>, 0, 0, x))
     \/ End /\ Rec(Ev("end", <<>>, 0, 0, 0))
     \/ Clear /\ arrs # <<>> /\ Rec(Ev("clear", <<>>, 0, 0, 0))
     \/ \E i \in 0..(Len(arrs)-1) : \E j \in 0..(Len(arrs[i+1])-1) : \E x \in Vals :
           SetElem(i, j, x) /\ x # arrs[i+1][j+1] /\ Rec(Ev("set", <<>>, i, j, x))
     \/ Copy /\ arrs # <<>> /\ Rec(Ev("copy", <<>>, 0, 0, 0))
MNext == Step \/ Stop
MSpec == MInit /\ [][MNext]_mvars

EmitInv == (Emit /\ Len(hist) = MaxSteps + 1) => PrintT("CASE " \o ToJson(SubSeq(hist, 1, MaxSteps)))
View == <<vars, Len(hist)>>
=============================================================================
