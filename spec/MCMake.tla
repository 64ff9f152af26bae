------------------------------- MODULE MCMake -------------------------------
(* object! and array! with any entries, built up one by one *)
EXTENDS JConform, Json, TLC
CONSTANTS What, MaxLen, Wide
VARIABLE e
KeysHere == IF Wide THEN {<<97>>, <<98>>, <<>>} ELSE {<<97>>, <<98>>}
ValsHere == IF Wide THEN {SmallNum(1), JStr(<<115>>), JObj(<<>>), JArr(<<JNull>>)} ELSE {SmallNum(1), JStr(<<115>>)}
Init == e = <<>>
Next == /\ Len(e) < MaxLen
        /\ IF What = "object" THEN \E k \in KeysHere, x \in ValsHere : e' = Append(e, <<k, x>>)
           ELSE \E x \in ValsHere \cup {JNull} : e' = Append(e, x)
Spec == Init /\ [][Next]_e
\* the entries of a key are its values, in order
EntriesInv == What = "object" =>
  \A k \in KeysHere : ValuesOf(Built([o |-> What, e |-> e]).m, k) =
                      LET s == SelectSeq(e, LAMBDA p : p[1] = k) IN [i \in 1..Len(s) |-> s[i][2]]
Put(in) == PrintT(ToJson([in |-> in, exp |-> Built(in)]))
Emit == /\ Put([k |-> "make", o |-> What, e |-> e])
        /\ Put([k |-> "make", o |-> What, e |-> e, trail |-> TRUE])
=============================================================================
