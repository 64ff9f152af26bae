------------------------------ MODULE JNumber -------------------------------
(***************************************************************************)
(* Decimal numbers: normal form, printing, and the range of finite doubles. *)
(* The value of a number literal is its exact decimal value; the crate      *)
(* keeps the nearest double.  Parsing here keeps the exact decimal; module   *)
(* JRound decides which double a decimal must become.                       *)
(***************************************************************************)
EXTENDS JValue

NZero(neg) == [neg |-> neg, d |-> <<>>, e |-> 0]

RECURSIVE LeadingZeros(_, _), TrailingCut(_, _)
LeadingZeros(d, i) == IF i <= Len(d) /\ d[i] = 0 THEN LeadingZeros(d, i + 1) ELSE i - 1
TrailingCut(d, n)  == IF n > 0 /\ d[n] = 0 THEN TrailingCut(d, n - 1) ELSE n

\* the number (-1)^neg * d1d2...dn * 10^x as a normal form
Normal(neg, d, x) ==
  LET z == LeadingZeros(d, 1)
      n == TrailingCut(d, Len(d))
  IN  IF z >= n THEN NZero(neg)
      ELSE [neg |-> neg, d |-> SubSeq(d, z + 1, n), e |-> Len(d) - 1 - z + x]

\* exponents are capped: beyond the cap a number is too large or rounds to 0 anyway
ExpCap == 100000
RECURSIVE DigitsVal(_, _, _)
DigitsVal(d, i, acc) ==
  IF i > Len(d) THEN acc
  ELSE DigitsVal(d, i + 1, IF acc >= ExpCap THEN ExpCap ELSE acc * 10 + d[i])

\* compare two normal forms by magnitude: -1, 0 or 1
RECURSIVE DigitsCmp(_, _, _)
DigitsCmp(a, b, i) ==
  IF i > Len(a) /\ i > Len(b) THEN 0
  ELSE LET x == IF i <= Len(a) THEN a[i] ELSE 0
           y == IF i <= Len(b) THEN b[i] ELSE 0
       IN  IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE DigitsCmp(a, b, i + 1)
MagCmp(a, b) ==
  IF a.d = <<>> \/ b.d = <<>>
  THEN IF a.d = b.d THEN 0 ELSE IF a.d = <<>> THEN -1 ELSE 1
  ELSE IF a.e # b.e THEN IF a.e < b.e THEN -1 ELSE 1
  ELSE DigitsCmp(a.d, b.d, 1)

\* 2^1024 - 2^970, halfway between the largest finite double and the next power:
\* a decimal at or above it rounds to infinity
InfThreshold == [neg |-> FALSE, e |-> 308, d |->
  <<1,7,9,7,6,9,3,1,3,4,8,6,2,3,1,5,8,0,7,9,3,7,2,8,9,7,1,4,0,5,3,0,3,4,1,5,0,7,9,9,3,4,1,3,2,7,1,0,0,3,7,8,2,6,9,3,6,1,7,3,7,7,8,9,8,0,4,4,4,9,6,8,2,9,2,7,6,4,7,5,0,9,4,6,6,4,9,0,1,7,9,7,7,5,8,7,2,0,7,0,9,6,3,3,0,2,8,6,4,1,6,6,9,2,8,8,7,9,1,0,9,4,6,5,5,5,5,4,7,8,5,1,9,4,0,4,0,2,6,3,0,6,5,7,4,8,8,6,7,1,5,0,5,8,2,0,6,8,1,9,0,8,9,0,2,0,0,0,7,0,8,3,8,3,6,7,6,2,7,3,8,5,4,8,4,5,8,1,7,7,1,1,5,3,1,7,6,4,4,7,5,7,3,0,2,7,0,0,6,9,8,5,5,5,7,1,3,6,6,9,5,9,6,2,2,8,4,2,9,1,4,8,1,9,8,6,0,8,3,4,9,3,6,4,7,5,2,9,2,7,1,9,0,7,4,1,6,8,4,4,4,3,6,5,5,1,0,7,0,4,3,4,2,7,1,1,5,5,9,6,9,9,5,0,8,0,9,3,0,4,2,8,8,0,1,7,7,9,0,4,1,7,4,4,9,7,7,9,2>>]
IsFinite(n) == MagCmp(n, InfThreshold) < 0

----------------------------------------------------------------------------
(* Printing: plain decimal notation, never an exponent, as Rust's Display   *)
Zeros(k)   == [i \in 1..k |-> 48]
AsChars(d) == [i \in 1..Len(d) |-> 48 + d[i]]
PrintNum(n) ==
  LET body ==
        IF n.d = <<>> THEN <<48>>
        ELSE IF n.e < 0 THEN <<48, 46>> \o Zeros(-n.e - 1) \o AsChars(n.d)
        ELSE IF n.e >= Len(n.d) - 1 THEN AsChars(n.d) \o Zeros(n.e - (Len(n.d) - 1))
        ELSE AsChars(SubSeq(n.d, 1, n.e + 1)) \o <<46>> \o AsChars(SubSeq(n.d, n.e + 2, Len(n.d)))
  IN  IF n.neg THEN <<45>> \o body ELSE body
=============================================================================
