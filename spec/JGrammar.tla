------------------------------ MODULE JGrammar ------------------------------
(***************************************************************************)
(* JSON texts declaratively, after RFC 8259: each nonterminal is the set of *)
(* positions where a match of it that starts at position i can end.         *)
(* Used to cross-check the machine of JParse; recognizes only.              *)
(***************************************************************************)
EXTENDS JParse

At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1

RECURSIVE SkipWS(_, _)
SkipWS(s, i) == IF IsWS(At(s, i)) THEN SkipWS(s, i + 1) ELSE i

\* the end of the longest run of digits
RECURSIVE Digits(_, _)
Digits(s, i) == IF IsDigit(At(s, i)) THEN Digits(s, i + 1) ELSE i

MatchWord(s, i, w) ==
  IF i + Len(w) - 1 <= Len(s) /\ \A j \in 1..Len(w) : At(s, i + j - 1) = w[j] THEN {i + Len(w)} ELSE {}

\* number = [ "-" ] int [ frac ] [ exp ]; all ends, not only the longest
IntEnds(s, i) == IF At(s, i) = 48 THEN {i + 1}
                 ELSE IF At(s, i) \in 49..57 THEN (i + 1)..Digits(s, i) ELSE {}
FracEnds(s, i) == IF At(s, i) = 46 THEN {j \in (i + 2)..Digits(s, i + 1) : TRUE} ELSE {}
ExpEnds(s, i) == IF At(s, i) \in {69, 101}
                 THEN LET k == IF At(s, i + 1) \in {43, 45} THEN i + 2 ELSE i + 1
                      IN (k + 1)..Digits(s, k)
                 ELSE {}
NumberEnds(s, i) ==
  LET k == IF At(s, i) = 45 THEN i + 1 ELSE i
      a == IntEnds(s, k)
      b == a \cup UNION {FracEnds(s, j) : j \in a}
  IN  b \cup UNION {ExpEnds(s, j) : j \in b}

HexAt(s, i) == IF \A k \in 0..3 : At(s, i + k) # -1 /\ IsHex(At(s, i + k))
               THEN HexVal(s[i]) * 4096 + HexVal(s[i+1]) * 256 + HexVal(s[i+2]) * 16 + HexVal(s[i+3])
               ELSE -1

\* the end of a string body and its closing quote, 0 when there is none
RECURSIVE BodyEnd(_, _)
BodyEnd(s, i) ==
  LET c == At(s, i) IN
  IF c = 34 THEN i + 1
  ELSE IF c < 32 THEN 0
  ELSE IF c # 92 THEN BodyEnd(s, i + 1)
  ELSE IF At(s, i + 1) \in {34, 92, 47, 98, 102, 110, 114, 116} THEN BodyEnd(s, i + 2)
  ELSE IF At(s, i + 1) # 117 THEN 0
  ELSE LET u == HexAt(s, i + 2) IN
       IF u < 0 \/ u \in 56320..57343 THEN 0
       ELSE IF u \notin 55296..56319 THEN BodyEnd(s, i + 6)
       ELSE IF At(s, i + 6) = 92 /\ At(s, i + 7) = 117 /\ HexAt(s, i + 8) \in 56320..57343
            THEN BodyEnd(s, i + 12) ELSE 0
StringEnds(s, i) == IF At(s, i) = 34 /\ BodyEnd(s, i + 1) # 0 THEN {BodyEnd(s, i + 1)} ELSE {}

RECURSIVE ValueEnds(_, _), ElemsEnds(_, _), MembersEnds(_, _)
\* value followed by white space
Spaced(s, ends) == {SkipWS(s, j) : j \in ends}
\* elements = value *( "," value ), up to and with the "]"
ElemsEnds(s, i) ==
  UNION { IF At(s, j) = 93 THEN {j + 1}
          ELSE IF At(s, j) = 44 THEN ElemsEnds(s, SkipWS(s, j + 1)) ELSE {}
        : j \in Spaced(s, ValueEnds(s, i)) }
MembersEnds(s, i) ==
  UNION { IF At(s, j) # 58 THEN {}
          ELSE UNION { IF At(s, k) = 125 THEN {k + 1}
                       ELSE IF At(s, k) = 44 THEN MembersEnds(s, SkipWS(s, k + 1)) ELSE {}
                     : k \in Spaced(s, ValueEnds(s, SkipWS(s, j + 1))) }
        : j \in Spaced(s, StringEnds(s, i)) }
ValueEnds(s, i) ==
  MatchWord(s, i, LitNull) \cup MatchWord(s, i, LitTrue) \cup MatchWord(s, i, LitFalse)
  \cup NumberEnds(s, i) \cup StringEnds(s, i)
  \cup (IF At(s, i) # 91 THEN {}
        ELSE LET j == SkipWS(s, i + 1) IN IF At(s, j) = 93 THEN {j + 1} ELSE ElemsEnds(s, j))
  \cup (IF At(s, i) # 123 THEN {}
        ELSE LET j == SkipWS(s, i + 1) IN IF At(s, j) = 125 THEN {j + 1} ELSE MembersEnds(s, j))

\* the syntax; the machine also rejects numbers that no finite double is nearest to
IsText(s) == (Len(s) + 1) \in Spaced(s, ValueEnds(s, SkipWS(s, 1)))
=============================================================================
