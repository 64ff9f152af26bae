------------------------------- MODULE MCPath -------------------------------
(***************************************************************************)
(* Every path string over an alphabet, as runs of the path machine, and     *)
(* every path over a set of steps, written and read back.                   *)
(***************************************************************************)
EXTENDS JConform, Json, TLC

CONSTANTS Mode, MaxLen

VARIABLES text, p, n
vars == <<text, p, n>>

Alpha == {46, 92, 35, 97, 48, 49, 45, 233}
KeysHere == {<<>>, <<97>>, <<46>>, <<35>>, <<92>>, <<35, 49>>, <<97, 46, 98>>, <<92, 46>>, <<46, 46>>, <<92, 92, 97>>, <<48>>, <<92, 35>>, <<32>>, <<34, 128150>>, <<97, 35>>, <<97, 92, 98>>, <<46, 92>>}
StepsHere == {Key(k) : k \in KeysHere} \cup {Idx(i) : i \in {0, 1, 10, 207}}

Init == text = <<>> /\ p = (IF Mode = "text" THEN PathStart ELSE <<>>) /\ n = 0
Next == /\ n < MaxLen /\ n' = n + 1
        /\ IF Mode = "text" THEN \E ch \in Alpha : text' = Append(text, ch) /\ p' = PathStep(p, ch)
           ELSE \E s \in StepsHere : p' = Append(p, s) /\ text' = <<>>
Spec == Init /\ [][Next]_vars

\* the machine, and the definition over the whole text, agree
MachineInv == Mode = "text" /\ text # <<>> =>
  LET e == PathFinish(p) r == ParsePath(text) IN r.ok <=> ~e.bad
\* declaratively: the text is cut at the dots that are not written "\."
Dots == {i \in 1..Len(text) : text[i] = 46 /\ (i = 1 \/ text[i - 1] # 92)}
CutInv == Mode = "text" /\ text # <<>> =>
  LET r == ParsePath(text) IN r.ok => Len(r.segs) = Cardinality(Dots) + 1
WriteReadInv == Mode = "steps" /\ p # <<>> /\ Writable(p) => ParsePath(WritePath(p)) = [ok |-> TRUE, segs |-> p]

\* left out: an index written "-0..", which one may or may not call an integer that fits
MinusZero == \E i \in 1..(Len(text) - 2) : SubSeq(text, i, i + 2) = <<35, 45, 48>>
Put(s, r) == PrintT(ToJson([in |-> [k |-> "path", s |-> s], exp |-> r]))
Emit == IF Mode = "text" THEN MinusZero \/ Put(text, ParsePath(text))
        ELSE p = <<>> \/ ~Writable(p) \/ Put(WritePath(p), ParsePath(WritePath(p)))
=============================================================================
