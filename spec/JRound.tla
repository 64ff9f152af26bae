------------------------------- MODULE JRound -------------------------------
(***************************************************************************)
(* Which double a decimal must become.                                      *)
(*                                                                          *)
(* A double is identified by its shortest decimal (a normal form of at most *)
(* 17 digits).  A neighbourhood entry of a double gives exact decimals of   *)
(* the magnitudes of the double and its two neighbours:                     *)
(*   [s |-> shortest, x |-> exact, lo |-> exact of the double below,        *)
(*    hi |-> exact of the double above, ev |-> whether its last bit is 0]   *)
(* and the double nearest to a decimal D is the one with                    *)
(*   lo + x <= 2 D <= x + hi, a tie going to the even one.                  *)
(* A decimal of at most 15 digits and moderate exponent is itself the       *)
(* shortest decimal of its nearest double, so no entry is needed for it.    *)
(***************************************************************************)
EXTENDS JPrint

Simple(n) == Len(n.d) <= 15 /\ n.e \in -290..290

\* the digit of n at 10^p
DigitAt(n, p) == LET i == n.e - p + 1 IN IF i >= 1 /\ i <= Len(n.d) THEN n.d[i] ELSE 0

\* the sum of two magnitudes
AddMag(a, b) ==
  IF a.d = <<>> THEN [b EXCEPT !.neg = FALSE] ELSE IF b.d = <<>> THEN [a EXCEPT !.neg = FALSE]
  ELSE LET lowa == a.e - Len(a.d) + 1
           lowb == b.e - Len(b.d) + 1
           low  == IF lowa < lowb THEN lowa ELSE lowb
           high == (IF a.e > b.e THEN a.e ELSE b.e) + 1
           \* acc = <<carry, digits so far, most significant first>>
           r == FoldLeft(LAMBDA acc, p :
                           LET t == DigitAt(a, p) + DigitAt(b, p) + acc[1]
                           IN <<t \div 10, Append(acc[2], t % 10)>>,
                         <<0, <<>>>>, [i \in 1..(high - low + 1) |-> low + i - 1])
       IN  Normal(FALSE, Reverse(r[2]), low)

\* D is the exact decimal, ent the neighbourhood entry of the double it became
Nearest(D, ent) ==
  LET DD == AddMag(D, D)
      up == MagCmp(DD, AddMag(ent.x, ent.hi))
      dn == MagCmp(DD, AddMag(ent.lo, ent.x))
  IN  /\ D.neg = ent.s.neg
      /\ up < 0 \/ (up = 0 /\ ent.ev)
      /\ IF ent.x.d = <<>> THEN TRUE ELSE dn > 0 \/ (dn = 0 /\ ent.ev)

\* D became the double with shortest decimal s; tab holds the entries at hand
Became(D, s, tab) ==
  IF Simple(D) /\ Simple(s) THEN D = s
  ELSE \E i \in 1..Len(tab) : tab[i].s = s /\ Nearest(D, tab[i])

\* the value v read or built by the model with exact decimals is the observed value w
RECURSIVE Denotes(_, _, _)
Denotes(v, w, tab) ==
  /\ v.t = w.t
  /\ CASE v.t = "num" -> Became(v.n, w.n, tab)
       [] v.t = "arr" -> /\ Len(v.a) = Len(w.a)
                         /\ \A i \in 1..Len(v.a) : Denotes(v.a[i], w.a[i], tab)
       [] v.t = "obj" -> /\ Len(v.m) = Len(w.m)
                         /\ \A i \in 1..Len(v.m) :
                              /\ v.m[i][1] = w.m[i][1]
                              /\ Len(v.m[i][2]) = Len(w.m[i][2])
                              /\ \A j \in 1..Len(v.m[i][2]) : Denotes(v.m[i][2][j], w.m[i][2][j], tab)
       [] OTHER -> v = w
=============================================================================
