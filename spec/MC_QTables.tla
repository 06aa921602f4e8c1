------------------------------ MODULE MC_QTables -----------------------------
(* Histories of a table and a reused buffer.                                  *)
EXTENDS QTables, TLC, Json
CONSTANTS MaxRules, MaxPts, MaxElems, MaxSteps, Mismatch, Emit
VARIABLES t, buf, last, hist
mvars == <<t, buf, last, hist>>
Lens(n) == UNION {[1..k -> 0..n] : k \in 0..MaxRules}
\* every point, weight and datum is distinguishable
Vals(ls, base) == [i \in Dom(ls) |-> [j \in 1..ls[i] |-> base + 10 * i + j]]
Shift(ls) == {ls} \cup IF Mismatch THEN {SubSeq(ls, 1, Len(ls) - 1), Append(ls, 0)} \cup {[ls EXCEPT ![i] = @ + 1] : i \in Dom(ls)} ELSE {}
Maps(ls) == UNION {[1..k -> 0..(Len(ls) - (IF Mismatch \/ ls = <<>> THEN 0 ELSE 1))] : k \in 0..MaxElems}
Supplies == UNION { UNION { { [kind |-> k, P |-> Vals(ls, 0), W |-> Vals(w, 100), D |-> Vals(d, 200), map |-> m] :
                              m \in IF k = "compact" THEN Maps(ls) ELSE {<<>>} } :
                            <<w, d>> \in {<<a, ls>> : a \in Shift(ls)} \cup {<<ls, b>> : b \in Shift(ls)},
                            k \in IF Len(ls) = 1 THEN {"general", "compact", "uniform"} ELSE {"general", "compact"} } :
                    ls \in Lens(MaxPts) }
NoBuf == [P |-> <<>>, W |-> <<>>, D |-> <<>>]
MInit == t = NoTable /\ buf = NoBuf /\ last = -1 /\ hist = <<>>
Elems == 0..MaxElems-1
New == /\ hist = <<>>
       /\ \E c \in Supplies : /\ (c.kind = "uniform" => Len(c.P) = 1 /\ Len(c.W) = 1 /\ Len(c.D) = 1)
                              /\ t' = (IF Consistent(c) THEN c ELSE NoTable)
                              /\ hist' = <<[op |-> "new", c |-> c]>>
       /\ UNCHANGED <<buf, last>>
Query == /\ hist # <<>> /\ Len(hist) < MaxSteps /\ t # NoTable
         /\ \E e \in Elems : /\ Knows(t, e) /\ buf' = Rule(t, e) /\ last' = e
                             /\ hist' = Append(hist, [op |-> "buf", e |-> e])
         /\ UNCHANGED t
Replace == /\ hist # <<>> /\ Len(hist) < MaxSteps /\ t.kind = "uniform" /\ t.D # WithData(t, 7).D
           /\ t' = WithData(t, 7) /\ hist' = Append(hist, [op |-> "with", d |-> 7]) /\ last' = -1 /\ UNCHANGED buf
MStop == hist # <<>> /\ hist[Len(hist)].op # "stop" /\ (t = NoTable \/ Len(hist) = MaxSteps \/ \A e \in Elems : ~Knows(t, e))
         /\ hist' = Append(hist, [op |-> "stop"]) /\ UNCHANGED <<t, buf, last>>
MNext == New \/ Query \/ Replace \/ MStop
MSpec == MInit /\ [][MNext]_mvars
(* ------------------------------ guarantees -------------------------------- *)
\* the buffer is the rule of the last element asked for: nothing of earlier ones
HistoryFree == last >= 0 => buf = Rule(t, last)
Inside(e) == Knows(t, e)
SizesMatch == \A e \in Elems : Inside(e) => LET r == Rule(t, e) IN Len(r.P) = Len(r.W) /\ Len(r.P) = Len(r.D)
\* sharing is invisible: the table that stores a rule per element answers the same
Sharing == LET n == Cardinality({e \in Elems : Knows(t, e)}) IN
           t # NoTable => \A e \in 0..n-1 : Rule(t, e) = Rule(Expand(t, n), e)
\* answers are what was supplied for the element's rule
Supplied == hist # <<>> /\ t # NoTable =>
  LET c == hist[1].c IN \A e \in Elems : Knows(t, e) =>
    \E i \in Dom(c.P) : Rule(t, e).P = c.P[i] /\ Rule(t, e).W = c.W[i] /\ (t.D = c.D => Rule(t, e).D = c.D[i])
                        /\ (c.kind = "compact" => i = c.map[e+1] + 1) /\ (c.kind = "general" => i = e + 1)
Rejects == hist # <<>> /\ t = NoTable => ~Consistent(hist[1].c)
EmitInv == (Emit /\ hist # <<>> /\ hist[Len(hist)].op = "stop") => PrintT("CASE " \o ToJson(hist))
=============================================================================
