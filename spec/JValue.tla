------------------------------- MODULE JValue -------------------------------
(***************************************************************************)
(* The abstract values of the json crate.                                   *)
(*                                                                          *)
(* Text is a sequence of Unicode scalar values (integers), never a TLA+     *)
(* string, so that every operator below can look inside it.                 *)
(*                                                                          *)
(* A JSON value is one of                                                   *)
(*   [t |-> "null"]                                                         *)
(*   [t |-> "bool", b |-> BOOLEAN]                                          *)
(*   [t |-> "num",  n |-> Num]                                              *)
(*   [t |-> "str",  s |-> Text]                                             *)
(*   [t |-> "arr",  a |-> Seq(Value)]                                       *)
(*   [t |-> "obj",  m |-> Seq(<<key, values>>)]                             *)
(* An object is kept as a sequence of entries in strictly increasing key    *)
(* order; the values of one key are kept oldest first, and there is at      *)
(* least one.  The last one is "the" value of the key.                      *)
(*                                                                          *)
(* A number is a decimal [neg, d, e]: d is a digit sequence without leading *)
(* or trailing zeros, and its value is d1.d2d3... * 10^e; zero is d = <<>>. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

JNull    == [t |-> "null"]
JBool(b) == [t |-> "bool", b |-> b]
JNum(n)  == [t |-> "num", n |-> n]
JStr(s)  == [t |-> "str", s |-> s]
JArr(a)  == [t |-> "arr", a |-> a]
JObj(m)  == [t |-> "obj", m |-> m]

IsObj(v) == v.t = "obj"
IsArr(v) == v.t = "arr"

----------------------------------------------------------------------------
(* Order on text: by code point, which is also the order of the UTF-8 bytes *)
RECURSIVE TextLessFrom(_, _, _)
TextLessFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE TextLessFrom(a, b, i + 1)
TextLess(a, b) == TextLessFrom(a, b, 1)

----------------------------------------------------------------------------
(* Objects *)

\* the position of key k in m, 0 when absent
KeyPos(m, k) ==
  LET P == {i \in 1..Len(m) : m[i][1] = k}
  IN  IF P = {} THEN 0 ELSE CHOOSE i \in P : TRUE

HasKey(m, k) == \E i \in 1..Len(m) : m[i][1] = k

\* all values of key k, oldest first
ValuesOf(m, k) == LET p == KeyPos(m, k) IN IF p = 0 THEN <<>> ELSE m[p][2]

\* m with the values of key k replaced (vs is not empty)
PutValues(m, k, vs) ==
  LET p == KeyPos(m, k)
  IN  IF p # 0 THEN [m EXCEPT ![p] = <<k, vs>>]
      ELSE LET n == Cardinality({i \in 1..Len(m) : TextLess(m[i][1], k)})
           IN  SubSeq(m, 1, n) \o <<<<k, vs>>>> \o SubSeq(m, n + 1, Len(m))

\* one more value for key k: duplicates are kept, the new one is the value
PutAppend(m, k, v) == PutValues(m, k, Append(ValuesOf(m, k), v))

\* exactly one value for key k
PutOnly(m, k, v) == PutValues(m, k, <<v>>)

RemoveKey(m, k) ==
  LET p == KeyPos(m, k)
  IN  IF p = 0 THEN m ELSE SubSeq(m, 1, p - 1) \o SubSeq(m, p + 1, Len(m))

----------------------------------------------------------------------------
(* Arrays, with indices from 0 as in the crate *)
ArrRemove(a, i) == SubSeq(a, 1, i) \o SubSeq(a, i + 2, Len(a))
PadTo(a, n)    == IF Len(a) >= n THEN a ELSE a \o [j \in 1..(n - Len(a)) |-> JNull]

----------------------------------------------------------------------------
RECURSIVE WellFormed(_)
WellFormed(v) ==
  CASE v.t \in {"null", "bool", "num", "str"} -> TRUE
    [] v.t = "arr" -> \A i \in 1..Len(v.a) : WellFormed(v.a[i])
    [] v.t = "obj" ->
         /\ \A i \in 1..(Len(v.m) - 1) : TextLess(v.m[i][1], v.m[i + 1][1])
         /\ \A i \in 1..Len(v.m) :
              /\ Len(v.m[i][2]) >= 1
              /\ \A j \in 1..Len(v.m[i][2]) : WellFormed(v.m[i][2][j])

RECURSIVE Size(_), SizeSum(_)
SizeSum(s) == IF s = <<>> THEN 0 ELSE Size(Head(s)) + SizeSum(Tail(s))
Size(v) ==
  CASE v.t = "arr" -> 1 + SizeSum(v.a)
    [] v.t = "obj" -> 1 + LET F[i \in 0..Len(v.m)] ==
                               IF i = 0 THEN 0 ELSE F[i - 1] + SizeSum(v.m[i][2])
                           IN F[Len(v.m)]
    [] OTHER -> 1

RECURSIVE Depth(_)
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Depth(v) ==
  CASE v.t = "arr" -> 1 + MaxOf({Depth(v.a[i]) : i \in 1..Len(v.a)})
    [] v.t = "obj" -> 1 + MaxOf(UNION {{Depth(v.m[i][2][j]) : j \in 1..Len(v.m[i][2])} : i \in 1..Len(v.m)})
    [] OTHER -> 0
=============================================================================
