----------------------------- MODULE TraceCases -----------------------------
(***************************************************************************)
(* Validates independent calls recorded from the crate: every case is one   *)
(* behaviour of a call and its return.                                      *)
(***************************************************************************)
EXTENDS JConform, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES i, st
vars == <<i, st>>

Init == i \in 1..Len(Cases) /\ st = "called"
\* a call returns; the return is rejected when no behaviour of the specification explains it
Return == /\ st = "called"
          /\ st' = IF Conforms(Cases[i]) THEN "returned" ELSE "rejected"
          /\ UNCHANGED i
Next == Return
Spec == Init /\ [][Next]_vars

Accepted == st # "rejected"
=============================================================================
