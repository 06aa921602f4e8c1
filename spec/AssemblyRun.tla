---------------------------- MODULE AssemblyRun -----------------------------
(* Contract of one assembly over all elements, as its user may rely on it,   *)
(* for serial and parallel assemblers alike.                                  *)
(*                                                                            *)
(* job.nodes  : sequence (one per element) of node sequences                  *)
(* job.fail   : set of elements (1-based) whose local assembly fails          *)
(* The global quantity is the sum of the contributions of the elements in     *)
(* done.  Elements start and finish; two elements that share a node are never *)
(* in flight together; every element is processed exactly once; a run         *)
(* without failures ends with all elements in done.                           *)
EXTENDS Util
VARIABLES job, phase, todo, busy, done, failed
rvars == <<job, phase, todo, busy, done, failed>>

NoJob == [nodes |-> <<>>, fail |-> {}]
RunInit == job = NoJob /\ phase = "idle" /\ todo = {} /\ busy = {} /\ done = {} /\ failed = {}

Conflict(e, f) == e # f /\ ToSet(job.nodes[e]) \cap ToSet(job.nodes[f]) # {}

Begin(j) ==
  /\ phase = "idle"
  /\ job' = j /\ phase' = "run" /\ todo' = Dom(j.nodes) /\ busy' = {} /\ done' = {} /\ failed' = {}
Start(e) ==
  /\ phase = "run" /\ e \in todo
  /\ \A f \in busy : ~Conflict(e, f)
  /\ todo' = todo \ {e} /\ busy' = busy \cup {e} /\ UNCHANGED <<job, phase, done, failed>>
Finish(e) ==
  /\ phase = "run" /\ e \in busy
  /\ busy' = busy \ {e}
  /\ IF e \in job.fail THEN failed' = failed \cup {e} /\ done' = done
     ELSE failed' = failed /\ done' = done \cup {e}
  /\ UNCHANGED <<job, phase, todo>>
\* success is reported only when every element was processed and none failed
EndOk ==
  /\ phase = "run" /\ todo = {} /\ busy = {} /\ failed = {}
  /\ phase' = "idle" /\ UNCHANGED <<job, todo, busy, done, failed>>
\* an error is reported only for an element that failed in this run
EndErr(e) ==
  /\ phase = "run" /\ busy = {} /\ e \in failed
  /\ phase' = "idle" /\ todo' = {} /\ UNCHANGED <<job, busy, done, failed>>
\* after a failure elements that have not started may be skipped
Drop == /\ phase = "run" /\ failed # {} /\ todo # {}
        /\ todo' = {} /\ UNCHANGED <<job, phase, busy, done, failed>>
RunNext == \/ \E e \in Dom(job.nodes) : Start(e) \/ Finish(e) \/ EndErr(e)
           \/ EndOk \/ Drop

Complete == (phase = "idle" /\ failed = {}) => done = Dom(job.nodes)
MutualExclusion == \A e, f \in busy : ~Conflict(e, f)
=============================================================================
