------------------------------ MODULE MC_Compose -----------------------------
(* Compositions of two small leaves by up to MaxSteps constructors.  The      *)
(* offset search finds the part and local index; nesting and flattening,      *)
(* transforming before and after aggregation, and successive renumberings     *)
(* are the same composition.                                                  *)
EXTENDS Compose, TLC, Json
CONSTANTS MaxSteps, MaxParts, Emit
VARIABLES pool, n
mvars == <<pool, n>>
Leaf(el, tag, fail) == [k |-> "leaf", n |-> 2, s |-> 1, el |-> el, tag |-> tag, fail |-> fail]
Leaves == {Leaf(<<>>, 0, <<>>), Leaf(<<<<0, 1>>>>, 1, <<0>>), Leaf(<<<<1>>, <<1, 0>>>>, 2, <<0, 1>>)}
Kinds == {"ts", "tv", "tm"}
Un(k, t) == [k |-> k, a |-> -2, c |-> 3, m |-> 4, r |-> 1, of |-> t]
Re(f, t) == [k |-> "map", n |-> 3, f |-> f, of |-> t]
MInit == pool \in Leaves /\ n = 0
Cand == Leaves \cup {pool}
Aggregate == \E m \in 1..MaxParts : \E parts \in [1..m -> Cand] : (\E i \in 1..m : parts[i] = pool) /\ pool' = [k |-> "agg", of |-> parts]
MNext == n < MaxSteps /\ n' = n + 1
         /\ (Aggregate \/ (\E k \in Kinds : pool' = Un(k, pool)) \/ (\E f \in {<<2, 0, 1>>, <<1, 1, 2>>} : pool' = Re(f, pool)))
MSpec == MInit /\ [][MNext]_mvars
t == pool
Found == (t.k = "agg" /\ Valid(t)) => \A e \in 0..(NumEl(t) - 1) : LookUp(t, e) = Loc(t, e)
Concat(a, b) == [a EXCEPT !.el = @ \o b.el]
ConcatLaw == (t.k = "agg" /\ Valid(t)) =>
  Whole(t).el = FoldSeq(LAMBDA p, acc : acc \o Whole(p).el, <<>>, t.of)
Agg(s) == [k |-> "agg", of |-> s]
Flatten == (t.k = "agg" /\ Valid(t) /\ \E i \in Dom(t.of) : t.of[i].k = "agg") =>
  Whole(t) = Whole(Agg(FoldSeq(LAMBDA p, acc : acc \o (IF p.k = "agg" THEN p.of ELSE <<p>>), <<>>, t.of)))
TransformDistributes == (t.k \in Kinds /\ t.of.k = "agg" /\ Valid(t)) =>
  Whole(t) = Whole(Agg([i \in Dom(t.of.of) |-> [t EXCEPT !.of = t.of.of[i]]]))
MapComposes == (t.k = "map" /\ t.of.k = "map" /\ Valid(t)) =>
  Whole(t) = Whole([t EXCEPT !.f = [i \in Dom(t.of.f) |-> t.f[t.of.f[i] + 1]], !.of = t.of.of])
Sizes == Valid(t) => \A e \in 0..(NumEl(t) - 1) : Vec(t, e).ok = 1 => Len(Vec(t, e).v) = Sol(t) * Len(Nodes(t, e))
EmitInv == Emit => PrintT("CASE " \o ToJson(t))
=============================================================================
