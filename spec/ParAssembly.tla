---------------------------- MODULE ParAssembly -----------------------------
(* How the parallel assembler works: colors one after another, the elements  *)
(* of a color by any number of threads in any order, every scatter a          *)
(* non-atomic read-modify-write per node.  It refines AssemblyRun.            *)
EXTENDS Util
CONSTANTS NNodes,    \* nodes 1..NNodes
          Families,  \* the element lists considered: sequences of sequences of nodes
          AnyColoring, \* TRUE: all colors may also conflict (to show that the coloring matters)
          MaxFail,   \* maximum number of failing elements
          Threads,   \* maximum number of elements in flight
          Barrier    \* TRUE: a color starts only after the previous one has finished

VARIABLES Elems, coloring, fail, c, pend, fly, val, err, status,
          done       \* history: elements completely scattered
\* fly: element -> [k: next local node, tmp: value read, mode]
vars == <<Elems, coloring, fail, c, pend, fly, val, err, status, done>>
Nodes == 1..NNodes
E == Dom(Elems)
Contribution(e, k) == 10 * e + k   \* what element e adds at its k-th node

Share(e, f) == e # f /\ ToSet(Elems[e]) \cap ToSet(Elems[f]) # {}
\* every way of grouping the elements into groups without conflict, in every order
RECURSIVE Colorings(_)
Colorings(rest) ==
  IF rest = {} THEN {<<>>}
  ELSE UNION {{<<S>> \o tl : tl \in Colorings(rest \ S)} :
              S \in {X \in SUBSET rest : X # {} /\ (AnyColoring \/ \A e, f \in X : ~Share(e, f))}}

Init == /\ Elems \in Families /\ coloring \in Colorings(E)
        /\ fail \in {F \in SUBSET E : Cardinality(F) <= MaxFail}
        /\ c = 1 /\ pend = IF Len(coloring) = 0 THEN {} ELSE coloring[1]
        /\ fly = <<>> /\ val = [n \in Nodes |-> 0] /\ err = {} /\ status = "run" /\ done = {}

InFlight == DOMAIN fly
StartE(e) == /\ status = "run" /\ e \in pend /\ Cardinality(InFlight) < Threads
             /\ pend' = pend \ {e}
             /\ fly' = (e :> [k |-> 1, tmp |-> 0, mode |-> "local"]) @@ fly
             /\ UNCHANGED <<coloring, fail, c, val, err, status, done>>
Local(e) == /\ e \in InFlight /\ fly[e].mode = "local" /\ e \notin fail
            /\ fly' = [fly EXCEPT ![e].mode = "read"]
            /\ UNCHANGED <<coloring, fail, c, pend, val, err, status, done>>
LocalFails(e) == /\ e \in InFlight /\ fly[e].mode = "local" /\ e \in fail
                 /\ fly' = [f \in InFlight \ {e} |-> fly[f]]
                 /\ err' = err \cup {e}
                 /\ UNCHANGED <<coloring, fail, c, pend, val, status, done>>
ReadV(e) == /\ e \in InFlight /\ fly[e].mode = "read" /\ fly[e].k <= Len(Elems[e])
            /\ fly' = [fly EXCEPT ![e].mode = "write", ![e].tmp = val[Elems[e][fly[e].k]]]
            /\ UNCHANGED <<coloring, fail, c, pend, val, err, status, done>>
WriteV(e) == /\ e \in InFlight /\ fly[e].mode = "write"
             /\ val' = [val EXCEPT ![Elems[e][fly[e].k]] = fly[e].tmp + Contribution(e, fly[e].k)]
             /\ fly' = [fly EXCEPT ![e].mode = "read", ![e].k = @ + 1]
             /\ UNCHANGED <<coloring, fail, c, pend, err, status, done>>
EndE(e) == /\ e \in InFlight /\ fly[e].mode = "read" /\ fly[e].k > Len(Elems[e])
           /\ fly' = [f \in InFlight \ {e} |-> fly[f]] /\ done' = done \cup {e}
           /\ UNCHANGED <<coloring, fail, c, pend, val, err, status>>
\* after a failure the remaining elements of the color may be skipped
Skip == /\ status = "run" /\ err # {} /\ pend # {} /\ pend' = {} /\ UNCHANGED <<coloring, fail, c, fly, val, err, status, done>>
NextColor == /\ status = "run" /\ pend = {} /\ err = {} /\ c < Len(coloring)
             /\ Barrier => InFlight = {}
             /\ c' = c + 1 /\ pend' = coloring[c + 1]
             /\ UNCHANGED <<coloring, fail, fly, val, err, status, done>>
Finish == /\ status = "run" /\ pend = {} /\ InFlight = {}
          /\ \/ err # {} /\ status' = "err"
             \/ err = {} /\ c >= Len(coloring) /\ status' = "ok"
          /\ UNCHANGED <<coloring, fail, c, pend, fly, val, err, done>>
Next == /\ \/ \E e \in E : StartE(e) \/ Local(e) \/ LocalFails(e) \/ ReadV(e) \/ WriteV(e) \/ EndE(e)
           \/ Skip \/ NextColor \/ Finish
        /\ UNCHANGED Elems
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------------------------------ properties ------------------------------- *)
NoConflictInFlight == \A e, f \in InFlight : ~Share(e, f)
Expected(n) == SumOver(LAMBDA e : SumOver(LAMBDA k : IF Elems[e][k] = n THEN Contribution(e, k) ELSE 0, Dom(Elems[e])), E)
SumExact == status = "ok" => \A n \in Nodes : val[n] = Expected(n)
ErrorIffFailure == /\ status = "ok" => fail = {}
                   /\ status = "err" => err # {} /\ err \subseteq fail
Terminates == <>(status # "run")

(* -------------------- refinement of the contract ------------------------- *)
Job == [nodes |-> Elems, fail |-> fail]
Later == UNION {coloring[i] : i \in {j \in 1..Len(coloring) : j > c}}
RC == INSTANCE AssemblyRun WITH
       job <- Job, phase <- IF status = "run" THEN "run" ELSE "idle",
       todo <- IF status = "err" \/ (err # {} /\ pend = {}) THEN {} ELSE pend \cup Later,
       busy <- InFlight, done <- done, failed <- err
\* every step of the parallel assembler is a step of the contract (or invisible); starting or losing the
\* last pending element of a color after a failure drops the later colors
RefinesContract == [][RC!RunNext \/ (err' # {} /\ pend' = {})]_(RC!rvars)
\* at any time when nothing is in flight the stored values are the contributions of the elements done
Sum(n, S) == SumOver(LAMBDA e : SumOver(LAMBDA k : IF Elems[e][k] = n THEN Contribution(e, k) ELSE 0, Dom(Elems[e])), S)
AccIsVal == InFlight = {} => \A n \in Nodes : val[n] = Sum(n, done)
=============================================================================
