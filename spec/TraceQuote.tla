----------------------------- MODULE TraceQuote -----------------------------
(***************************************************************************)
(* Validates what quote! was seen to produce: a case is a template (or a    *)
(* scope), and for every environment the tokens that came out.              *)
(***************************************************************************)
EXTENDS JQuote, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES i, k, st
vars == <<i, k, st>>

\* k: the environment
Expected(c, e) == IF "cs" \in DOMAIN c THEN ScopeTokens(c.cs, e) ELSE Expand(c.t, e)
\* (where the case was written so that it tells) what was evaluated
EvOk(c, e, o) ==
  IF "cs" \in DOMAIN c THEN LET r == ScopeRun(c.cs, e) IN r.open \/ r.ev = o.ev
  ELSE Evals(c.t, e) = o.ev
Ok(c, j) ==
  LET o == c.obs[j]
      e == IF "cs" \in DOMAIN c THEN ScopeEnvs[j] ELSE Envs[j]
  IN o.ok /\ SameTokens(Flat(Expected(c, e)), o.ts) /\ (c.tells => EvOk(c, e, o))

Init == i \in 1..Len(Cases) /\ k = 0 /\ st = "called"
Return == /\ st = "called" /\ k < Len(Envs)
          /\ k' = k + 1
          /\ st' = IF Ok(Cases[i], k + 1) THEN "called" ELSE "rejected"
          /\ UNCHANGED i
Next == Return
Spec == Init /\ [][Next]_vars

Accepted == st # "rejected"
=============================================================================
