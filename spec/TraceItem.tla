----------------------------- MODULE TraceItem -----------------------------
(***************************************************************************)
(* Validates what json_parse was seen to make of items: a case has the item *)
(* that was written, the report of the parsed item, the tokens it prints    *)
(* as, and those it prints as when these are parsed again.                  *)
(***************************************************************************)
EXTENDS JItem, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES i, st
vars == <<i, st>>

\* parsed, reported, printed, parsed again, printed again
Steps == <<"written", "parsed", "reported", "printed", "again">>
Ok(c, s) ==
  CASE s = 1 -> c.obs.ok
    [] s = 2 -> c.obs.rep = Report(c.item)
    [] s = 3 -> PrintsAs(c.item, c.obs.print)
    [] s = 4 -> c.obs.again = c.obs.print

Init == i \in 1..Len(Cases) /\ st = 1
Step == /\ st \in 1..4
        /\ st' = IF Ok(Cases[i], st) THEN st + 1 ELSE 0
        /\ UNCHANGED i
Next == Step
Spec == Init /\ [][Next]_vars
Accepted == st # 0
\* (to see every case that is not accepted, and the step at which)
Show == \A k \in 1..4 : (st = k /\ ~Ok(Cases[i], k)) => PrintT(ToString(<<i, Steps[k + 1]>>))
=============================================================================
