------------------------------- MODULE MC_Msh --------------------------------
(* Documents are written block by block; the last step is a perturbation of    *)
(* the claims in the section headers (or none).                                *)
EXTENDS Msh, TLC, Json
CONSTANTS MaxNB, MaxEB, MaxN, Emit
VARIABLES f, phase
mvars == <<f, phase>>
Want == [type |-> 2, dim |-> 2, D |-> 2]
Empty == [hasNodes |-> TRUE, hasElems |-> TRUE, broken |-> FALSE, nn |-> 0, nmin |-> 1, nmax |-> 0, ne |-> 0, emin |-> 1, emax |-> 0, nb |-> <<>>, eb |-> <<>>]
MInit == f = Empty /\ phase = "nodes"
Pt(k) == <<k, 100 + k, 200 + k>>
AddNodes == /\ phase = "nodes" /\ Len(f.nb) < MaxNB
            /\ \E k \in 0..MaxN : f' = [f EXCEPT !.nb = Append(@, [tags |-> [i \in 1..k |-> f.nn + i], pts |-> [i \in 1..k |-> Pt(f.nn + i)]]),
                                                   !.nn = @ + k, !.nmax = @ + k]
            /\ UNCHANGED phase
\* tags of a permuted file
Permute == /\ phase = "nodes" /\ f.nn >= 2 /\ Len(f.nb) = 1
           /\ f' = [f EXCEPT !.nb[1].tags = [i \in Dom(@) |-> IF i = 1 THEN 2 ELSE IF i = 2 THEN 1 ELSE i]]
           /\ phase' = "elems"
Start == phase = "nodes" /\ f.nn > 0 /\ phase' = "elems" /\ UNCHANGED f
El(w, r) == IF w.type = 2 THEN <<r, (r % f.nn) + 1, ((r + 1) % f.nn) + 1>> ELSE <<r, (r % f.nn) + 1>>
AddElems == /\ phase = "elems" /\ Len(f.eb) < MaxEB
            /\ \E d \in {1, 2, 3}, t \in {1, 2}, k \in 0..2, r \in 0..(f.nn + 1) :
                 /\ (k = 0 => r = 1)
                 /\ LET w == [dim |-> d, type |-> t, tags |-> [i \in 1..k |-> f.ne + i],
                              els |-> [i \in 1..k |-> IF i = 1 THEN El([type |-> t], r) ELSE El([type |-> t], 1)]] IN
                    f' = [f EXCEPT !.eb = Append(@, w), !.ne = @ + k, !.emax = @ + k]
            /\ UNCHANGED phase
Shift(d) == [f EXCEPT !.nmin = @ + d, !.nmax = @ + d, !.nb = [i \in Dom(@) |-> [@[i] EXCEPT !.tags = [j \in Dom(@) |-> @[j] + d]]]]
Perturb == /\ phase = "elems" /\ f.eb # <<>> /\ f.ne > 0
           /\ f' \in {f, [f EXCEPT !.nn = @ + 1, !.nmax = @ + 1], [f EXCEPT !.nmax = @ + 3], [f EXCEPT !.emax = @ + 2], [f EXCEPT !.ne = @ + 1],
                      Shift(1), [f EXCEPT !.hasNodes = FALSE], [f EXCEPT !.hasElems = FALSE], [f EXCEPT !.broken = TRUE]}
                     \cup (IF f.nn > 1 THEN {[f EXCEPT !.nn = @ - 1, !.nmax = @ - 1], [f EXCEPT !.nn = @ - 1]} ELSE {})
           /\ phase' = "done"
MNext == AddNodes \/ Permute \/ Start \/ AddElems \/ Perturb
MSpec == MInit /\ [][MNext]_mvars
Done == phase = "done"
\* the loader's shortcut (positions instead of tags) is right exactly for files numbered in order; permuted dense numbering is the exception
LoaderRight == Done => (Acceptable(f, Want, Load(f, Want)) \/ AllTags(f) # SortedSeq(ToSet(AllTags(f))))
PermutedWrong == (Done /\ AllTags(f) # SortedSeq(ToSet(AllTags(f))) /\ Load(f, Want).ok) =>
                   (Acceptable(f, Want, Load(f, Want)) <=> Load(f, Want).cells = Stated(f, Want).cells)
\* a file is never both required to load and required to fail
Consistent == Done => ~(Regular(f, Want) /\ MustErr(f, Want))
\* indices of an acceptable mesh are in range
InRange == Done => LET r == Load(f, Want) IN r.ok => \A i \in Dom(r.cells) : ToSet(r.cells[i]) \subseteq 0..(Len(r.verts) - 1)
EmitInv == (Emit /\ Done) => PrintT("CASE " \o ToJson(f))
=============================================================================
