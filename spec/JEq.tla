-------------------------------- MODULE JEq ---------------------------------
(***************************************************************************)
(* When two values are equal: the same kind all the way down, elements in   *)
(* order, the same keys, and for each key the same values in the order they *)
(* came.  Numbers are compared as numbers: -0 is 0, and not-a-number is not *)
(* equal to anything.                                                       *)
(***************************************************************************)
EXTENDS JValue

EqNumber(a, b) == a = b \/ (a.d = <<>> /\ b.d = <<>>)

RECURSIVE EqVal(_, _)
EqSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : EqVal(s[i], t[i])
EqVal(a, b) ==
  /\ a.t = b.t
  /\ CASE a.t = "null" -> TRUE
       [] a.t = "bool" -> a.b = b.b
       [] a.t = "str"  -> a.s = b.s
       [] a.t = "num"  -> EqNumber(a.n, b.n)
       [] a.t = "nf"   -> a.w = b.w /\ a.w # "nan"
       [] a.t = "arr"  -> EqSeq(a.a, b.a)
       [] a.t = "obj"  -> /\ Len(a.m) = Len(b.m)
                          /\ \A i \in 1..Len(a.m) : a.m[i][1] = b.m[i][1] /\ EqSeq(a.m[i][2], b.m[i][2])

\* the leaves of a value
RECURSIVE Parts(_)
Parts(v) ==
  CASE v.t = "arr" -> UNION {Parts(v.a[i]) : i \in 1..Len(v.a)}
    [] v.t = "obj" -> UNION {UNION {Parts(v.m[i][2][j]) : j \in 1..Len(v.m[i][2])} : i \in 1..Len(v.m)}
    [] OTHER -> {v}
HasNaN(v)  == \E x \in Parts(v) : x.t = "nf" /\ x.w = "nan"
HasZero(v) == \E x \in Parts(v) : x.t = "num" /\ x.n.d = <<>>
=============================================================================
