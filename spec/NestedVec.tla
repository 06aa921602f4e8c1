------------------------------ MODULE NestedVec ------------------------------
(* The nested vector: a sequence of sequences stored in one flat data array  *)
(* with begin/end offsets, plus an "appender" that builds the last array     *)
(* element by element.                                                        *)
(*                                                                            *)
(* arrs is the abstract value (what a user may rely on).  data/ob/oe is the   *)
(* storage the implementation keeps.  Every action updates both, and the      *)
(* refinement invariant says that the storage always denotes the abstract     *)
(* value.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLES
  arrs,   \* abstract value: Seq(Seq(Value))
  isopen, \* is an incremental array being built?
  cur,    \* the elements of the array being built
  data,   \* storage: all elements
  ob, oe  \* storage: begin/end offsets (0-based, end exclusive)

vars == <<arrs, isopen, cur, data, ob, oe>>

Init == /\ arrs = <<>> /\ isopen = FALSE /\ cur = <<>>
        /\ data = <<>> /\ ob = <<>> /\ oe = <<>>

(* -------------------------------- actions -------------------------------- *)
Push(a) ==
  /\ ~isopen
  /\ arrs' = Append(arrs, a)
  /\ ob' = Append(ob, Len(data))
  /\ data' = data \o a
  /\ oe' = Append(oe, Len(data) + Len(a))
  /\ UNCHANGED <<isopen, cur>>

Begin == /\ ~isopen /\ isopen' = TRUE /\ cur' = <<>> /\ UNCHANGED <<arrs, data, ob, oe>>

PushSingle(x) ==
  /\ isopen
  /\ cur' = Append(cur, x)
  /\ data' = Append(data, x)
  /\ UNCHANGED <<arrs, isopen, ob, oe>>

End ==      \* the appender is dropped
  /\ isopen
  /\ isopen' = FALSE
  /\ arrs' = Append(arrs, cur)
  /\ cur' = <<>>
  /\ ob' = Append(ob, Len(data) - Len(cur))
  /\ oe' = Append(oe, Len(data))
  /\ UNCHANGED data

Clear == /\ ~isopen /\ arrs' = <<>> /\ data' = <<>> /\ ob' = <<>> /\ oe' = <<>>
         /\ UNCHANGED <<isopen, cur>>

(* mutate element j of array i (0-based) through a mutable view *)
SetElem(i, j, x) ==
  /\ ~isopen
  /\ i \in 0..(Len(arrs)-1) /\ j \in 0..(Len(arrs[i+1])-1)
  /\ arrs' = [arrs EXCEPT ![i+1][j+1] = x]
  /\ data' = [data EXCEPT ![ob[i+1] + j + 1] = x]
  /\ UNCHANGED <<isopen, cur, ob, oe>>

(* clone / convert to and from nested vectors / serialise and back *)
Copy == ~isopen /\ UNCHANGED vars

(* ------------------------------ observations ----------------------------- *)
Flat(s) == FoldSeq(LAMBDA a, acc : acc \o a, <<>>, s)
Total(s) == FoldSeq(LAMBDA a, acc : acc + Len(a), 0, s)
ArrayAt(i) == SubSeq(data, ob[i] + 1, oe[i])   \* 1-based i, from storage

(* ------------------------------- invariants ------------------------------ *)
StorageDenotesValue ==
  /\ Len(ob) = Len(arrs) /\ Len(oe) = Len(arrs)
  /\ \A i \in 1..Len(arrs) : ArrayAt(i) = arrs[i]
NoGaps ==  \* flattening the arrays is the data itself (so equality of storage = equality of values)
  data = Flat(arrs) \o cur
AppenderCount == isopen => Len(data) - Len(cur) = Total(arrs)
=============================================================================
