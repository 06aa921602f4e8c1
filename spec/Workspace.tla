------------------------------ MODULE Workspace ------------------------------
(* Reused storage.  Two views: the type-keyed workspace is a map from types   *)
(* to values, and a computation that uses reused storage is a function of its *)
(* inputs alone: what it answers is what it answered with fresh storage.      *)
EXTENDS Util
Absent == -1
\* the type-keyed workspace as a map (Absent: nothing stored yet)
Get(m, ty, init) == IF m[ty] = Absent THEN init ELSE m[ty]
Created(m, ty) == m[ty] = Absent
Put(m, ty, v) == [m EXCEPT ![ty] = v]
\* its storage: a stack of entries, the entry looked up is swapped with the last one
Find(st, ty) == CHOOSE i \in Dom(st) : st[i].ty = ty /\ \A j \in Dom(st) : j > i => st[j].ty # ty
Swap(st, i, j) == [st EXCEPT ![i] = st[j], ![j] = st[i]]
Access(st, ty, init) ==
  IF \E i \in Dom(st) : st[i].ty = ty THEN Swap(st, Find(st, ty), Len(st)) ELSE Append(st, [ty |-> ty, v |-> init])
StorePut(st, v) == [st EXCEPT ![Len(st)].v = v]
AbsMap(st, Types) == [ty \in Types |-> IF \E i \in Dom(st) : st[i].ty = ty THEN st[Find(st, ty)].v ELSE Absent]
(* Buffers.  A computation with n entries resizes a buffer (old entries stay, *)
(* new ones are filled), writes the entries it is going to read, and reads.   *)
Resize(b, n, fill) == [i \in 1..n |-> IF i <= Len(b) THEN b[i] ELSE fill]
Populate(b, input) == [i \in Dom(b) |-> input[i]]
=============================================================================
