-------------------------------- MODULE Util --------------------------------
(* Small helpers shared by the specifications. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions
Dom(s) == 1..Len(s)
SumOver(op(_), S) == MapThenSumSet(op, S)
\* values of a sequence of integers that satisfy no order of summation (integers: any order is the same)
SumSeq(s) == FoldSeq(LAMBDA a, acc : acc + a, 0, s)
SortedSeq(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
StrictlyIncreasing(s) == \A i \in 1..(Len(s)-1) : s[i] < s[i+1]
\* finite maps with default 0
Val(m, k) == IF k \in DOMAIN m THEN m[k] ELSE 0
AddMaps(m1, m2) == [k \in DOMAIN m1 \cup DOMAIN m2 |-> Val(m1, k) + Val(m2, k)]
SameMap(m1, m2) == \A k \in DOMAIN m1 \cup DOMAIN m2 : Val(m1, k) = Val(m2, k)
EmptyMap == [k \in {} |-> 0]
\* sequence of <<key..., value>> rows to a map
Prefixes0(s) == {SubSeq(s, 1, n) : n \in 0..Len(s)}
IsPermOf(s, S) == Len(s) = Cardinality(S) /\ ToSet(s) = S
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Count(s, x) == Cardinality({i \in Dom(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in ToSet(s) \cup ToSet(t) : Count(s, x) = Count(t, x)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
=============================================================================
