------------------------------- MODULE JError -------------------------------
(***************************************************************************)
(* Which error kinds may be reported for a text that is not JSON: the kind  *)
(* tells by its first character what the text was taken for.  In a          *)
(* container the error may also be that of a part, so only of something     *)
(* that may start inside.                                                   *)
(***************************************************************************)
EXTENDS JParse

KindOf(ch) ==
  CASE ch = 110 -> "ParseNullError"
    [] ch \in {116, 102} -> "ParseBooleanError"
    [] ch = 45 \/ IsDigit(ch) -> "ParseNumberError"
    [] ch = 34 -> "ParseStringError"
    [] ch = 91 -> "ParseArrayError"
    [] ch = 123 -> "ParseObjectError"
    [] OTHER -> "InvalidJson"

RECURSIVE NoLead(_)
NoLead(s) == IF s # <<>> /\ IsWS(Head(s)) THEN NoLead(Tail(s)) ELSE s

FailKinds(s) ==
  LET t == NoLead(s) IN
  IF t = <<>> THEN {"InvalidJson"}
  ELSE IF Head(t) \in {91, 123} THEN {"InvalidJson"} \cup {KindOf(t[i]) : i \in 1..Len(t)}
  ELSE {KindOf(Head(t))}
=============================================================================
