----------------------------- MODULE TracePart -----------------------------
(***************************************************************************)
(* Validates what json_parse was seen to make of parts on their own, of two *)
(* types or names compared, and of token sequences cut at a separator.      *)
(***************************************************************************)
EXTENDS JPart, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES i, st
vars == <<i, st>>

Prints(p, obs) == Matches(Flat(PartToks(p, "print")), obs) \/ Matches(Flat(PartToks(p, "kinds")), obs)
Ok(c, s) ==
  LET p == c.p o == c.obs IN
  CASE s = 1 -> o.ok
    [] s = 2 -> (CASE p.k = "cut" -> o.rep = CutRep(p.ts)
                   [] p.k = "same" -> o.rep = (PartRep(p.a) = PartRep(p.b))
                   [] OTHER -> o.rep = PartRep(p))
    [] s = 3 -> p.k \in {"cut", "same"} \/ (Prints(p, o.print) /\ (p.k = "type" => Matches(Flat(UsedToks(p.a)), o.used)))
    [] s = 4 -> p.k \in {"cut", "same"} \/ (p.k = "fields" /\ p.a.k = "none") \/ o.again = o.print

Init == i \in 1..Len(Cases) /\ st = 1
Step == /\ st \in 1..4
        /\ st' = IF Ok(Cases[i], st) THEN st + 1 ELSE 0
        /\ UNCHANGED i
Next == Step
Spec == Init /\ [][Next]_vars
Accepted == st # 0
Show == \A k \in 1..4 : (st = k /\ ~Ok(Cases[i], k)) => PrintT(ToString(<<i, k>>))
=============================================================================
