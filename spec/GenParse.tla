------------------------------ MODULE GenParse ------------------------------
(***************************************************************************)
(* Explores every text made of at most MaxLen tokens of an alphabet, as     *)
(* runs of the parser machine, as long as the text can still be continued   *)
(* to a valid one.  Each state is emitted as a vector for the crate: the    *)
(* text with its expected outcome, and the tokens that kill it, which no    *)
(* continuation whatever can repair.                                        *)
(***************************************************************************)
EXTENDS JConform, JGrammar, Json, TLC

CONSTANTS Alphabet, MaxLen, Prefix, Kind, CheckGrammar

VARIABLES text, g, n
vars == <<text, g, n>>

Feed(h, tok) == FoldLeft(Step, h, tok)

Init == text = Prefix /\ g = Feed(Start, Prefix) /\ n = 0
Next == /\ n < MaxLen
        /\ \E tok \in Alphabet :
             LET h == Feed(g, tok) IN
             /\ h.c # "X"
             /\ text' = text \o tok /\ g' = h /\ n' = n + 1
Spec == Init /\ [][Next]_vars

Killers == {tok \in Alphabet : Feed(g, tok).c = "X"}

\* values with numbers that are their own shortest decimals; others are left to recorded calls
RECURSIVE AllSimple(_)
AllSimple(v) ==
  CASE v.t = "num" -> Simple(v.n)
    [] v.t = "arr" -> \A i \in 1..Len(v.a) : AllSimple(v.a[i])
    [] v.t = "obj" -> \A i \in 1..Len(v.m) : \A j \in 1..Len(v.m[i][2]) : AllSimple(v.m[i][2][j])
    [] OTHER -> TRUE
Outcome == IF Kind = "accept" THEN [ok |-> Finish(g).ok] ELSE Finish(g)
FailCase(s) == LET c == [k |-> "fail", s |-> s] IN PrintT(ToJson([in |-> c, exp |-> Expected(c)]))
EmitFail == FailCase(text) /\ \A tok \in Killers : FailCase(text \o tok)
Emit ==
  /\ Kind = "accept" \/ (Outcome.ok => AllSimple(Outcome.v)) => PrintT(ToJson([in |-> [k |-> Kind, s |-> text], exp |-> Outcome]))
  /\ Killers # {} =>
       PrintT(ToJson([in |-> [k |-> "dead", s |-> text, x |-> SetToSeq(Killers)], exp |-> [ok |-> FALSE]]))

----------------------------------------------------------------------------
(* What the exploration checks about the specification itself *)
\* the machine is the declarative grammar, but for numbers that are too large
TooLarge == g.c \in NumFinal /\ ~IsFinite(NumValue(g.num))
GrammarAgrees ==
  CheckGrammar => /\ Finish(g).ok <=> (IsText(text) /\ ~(TooLarge /\ g.stk = <<>>))
                  /\ \A tok \in Killers : IsText(text \o tok) => TooLarge
\* values are well formed, and their canonical text denotes them
ValueInv == LET r == Finish(g) IN r.ok =>
              /\ WellFormed(r.v)
              /\ LET t == ToText(r.v) IN
                 /\ ParseText(t) = r
                 /\ \A i \in 1..Len(t) : t[i] \in 32..126
                 /\ ToText(ParseText(t).v) = t
=============================================================================
