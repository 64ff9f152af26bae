------------------------------- MODULE JParse -------------------------------
(***************************************************************************)
(* The language of JSON texts, as a deterministic machine that consumes one *)
(* character at a time and builds the denoted value.                        *)
(*                                                                          *)
(* A configuration has a control state c, the stack of open containers, and *)
(* the token being read:                                                    *)
(*   V   a value must start          V0  a value or "]" (just after "[")    *)
(*   K   a key must start            K0  a key or "}"   (just after "{")    *)
(*   C   ":" must come               A   a value has just ended             *)
(*   S   inside a string             SE  after its backslash                *)
(*   SU  reading hex digits          SL, SM  "\" and "u" of the low half    *)
(*   N-, N0, Ni, N., Nf, Ne, Ns, Nx  inside a number                        *)
(*   L   inside null, true or false  X   dead: no continuation is valid     *)
(* Number literals keep their exact decimal value.                          *)
(***************************************************************************)
EXTENDS JNumber, SequencesExt

NoNum == [neg |-> FALSE, d |-> <<>>, x |-> 0, eneg |-> FALSE, ed |-> <<>>]

Start == [c |-> "V", stk |-> <<>>, v |-> JNull, key |-> FALSE, s |-> <<>>,
          hx |-> 0, hn |-> 0, hi |-> 0, lit |-> <<>>, num |-> NoNum]
Dead  == [Start EXCEPT !.c = "X"]

IsWS(ch)    == ch \in {32, 9, 10, 13}
IsDigit(ch) == ch \in 48..57
IsHex(ch)   == ch \in 48..57 \/ ch \in 65..70 \/ ch \in 97..102
HexVal(ch)  == IF ch <= 57 THEN ch - 48 ELSE IF ch <= 70 THEN ch - 55 ELSE ch - 87

\* a value is complete: it is the document, or goes into the innermost container
Complete(g, v) ==
  LET h == [g EXCEPT !.c = "A", !.s = <<>>, !.lit = <<>>, !.num = NoNum]
  IN  IF g.stk = <<>> THEN [h EXCEPT !.v = v]
      ELSE LET n == Len(g.stk) IN LET f == g.stk[n] IN
           IF f.f = "arr" THEN [h EXCEPT !.stk[n] = [f EXCEPT !.a = Append(@, v)]]
           ELSE [h EXCEPT !.stk[n] = [f EXCEPT !.m = PutAppend(@, f.k, v)]]

\* a string is complete: it is a value or the key of the innermost object
CompleteStr(g) ==
  IF g.key
  THEN LET n == Len(g.stk)
       IN [g EXCEPT !.c = "C", !.key = FALSE, !.s = <<>>, !.stk[n] = [@ EXCEPT !.k = g.s]]
  ELSE Complete(g, JStr(g.s))

\* the innermost container is closed
Close(g) ==
  LET n == Len(g.stk) IN LET f == g.stk[n] IN
  Complete([g EXCEPT !.stk = SubSeq(g.stk, 1, n - 1)], IF f.f = "arr" THEN JArr(f.a) ELSE JObj(f.m))

LitNull  == <<110, 117, 108, 108>>
LitTrue  == <<116, 114, 117, 101>>
LitFalse == <<102, 97, 108, 115, 101>>

StartValue(g, ch) ==
  CASE ch = 34  -> [g EXCEPT !.c = "S", !.key = FALSE]
    [] ch = 91  -> [g EXCEPT !.c = "V0", !.stk = Append(@, [f |-> "arr", a |-> <<>>])]
    [] ch = 123 -> [g EXCEPT !.c = "K0", !.stk = Append(@, [f |-> "obj", m |-> <<>>, k |-> <<>>])]
    [] ch = 45  -> [g EXCEPT !.c = "N-", !.num = [NoNum EXCEPT !.neg = TRUE]]
    [] ch = 48  -> [g EXCEPT !.c = "N0", !.num = [NoNum EXCEPT !.d = <<0>>]]
    [] ch \in 49..57 -> [g EXCEPT !.c = "Ni", !.num = [NoNum EXCEPT !.d = <<ch - 48>>]]
    [] ch = 110 -> [g EXCEPT !.c = "L", !.lit = Tail(LitNull),  !.s = LitNull]
    [] ch = 116 -> [g EXCEPT !.c = "L", !.lit = Tail(LitTrue),  !.s = LitTrue]
    [] ch = 102 -> [g EXCEPT !.c = "L", !.lit = Tail(LitFalse), !.s = LitFalse]
    [] OTHER    -> Dead

LitValue(s) == IF s = LitNull THEN JNull ELSE JBool(s = LitTrue)

\* the exact decimal value of the literal just read
NumValue(num) ==
  LET e == DigitsVal(num.ed, 1, 0)
  IN  Normal(num.neg, num.d, (IF num.eneg THEN -e ELSE e) - num.x)

AfterNumber(g) ==
  LET n == NumValue(g.num) IN IF IsFinite(n) THEN Complete(g, JNum(n)) ELSE Dead

AfterValue(g, ch) ==
  IF IsWS(ch) THEN g
  ELSE IF g.stk = <<>> THEN Dead
  ELSE LET f == Last(g.stk) IN
       CASE ch = 44 /\ f.f = "arr"  -> [g EXCEPT !.c = "V"]
         [] ch = 44 /\ f.f = "obj"  -> [g EXCEPT !.c = "K"]
         [] ch = 93 /\ f.f = "arr"  -> Close(g)
         [] ch = 125 /\ f.f = "obj" -> Close(g)
         [] OTHER -> Dead

EndNumber(g, ch) == LET h == AfterNumber(g) IN IF h.c = "X" THEN Dead ELSE AfterValue(h, ch)

Digit(g, c, ch) == [g EXCEPT !.c = c, !.num.d = Append(@, ch - 48)]

PutChar(g, cp) == [g EXCEPT !.c = "S", !.s = Append(@, cp), !.hx = 0, !.hn = 0, !.hi = 0]

ShortEscape(ch) ==
  CASE ch = 34 -> 34 [] ch = 92 -> 92 [] ch = 47 -> 47 [] ch = 98 -> 8 [] ch = 102 -> 12
    [] ch = 110 -> 10 [] ch = 114 -> 13 [] ch = 116 -> 9 [] OTHER -> -1

\* four hex digits are complete
EndHex(g, u) ==
  IF g.hi # 0
  THEN IF u \in 56320..57343
       THEN PutChar(g, 65536 + (g.hi - 55296) * 1024 + (u - 56320))
       ELSE Dead
  ELSE IF u \in 55296..56319 THEN [g EXCEPT !.c = "SL", !.hi = u, !.hx = 0, !.hn = 0]
  ELSE IF u \in 56320..57343 THEN Dead
  ELSE PutChar(g, u)

Step(g, ch) ==
  CASE g.c = "X"  -> g
    [] g.c = "V"  -> IF IsWS(ch) THEN g ELSE StartValue(g, ch)
    [] g.c = "V0" -> IF IsWS(ch) THEN g ELSE IF ch = 93 THEN Close(g) ELSE StartValue(g, ch)
    [] g.c = "K"  -> IF IsWS(ch) THEN g
                     ELSE IF ch = 34 THEN [g EXCEPT !.c = "S", !.key = TRUE] ELSE Dead
    [] g.c = "K0" -> IF IsWS(ch) THEN g
                     ELSE IF ch = 125 THEN Close(g)
                     ELSE IF ch = 34 THEN [g EXCEPT !.c = "S", !.key = TRUE] ELSE Dead
    [] g.c = "C"  -> IF IsWS(ch) THEN g ELSE IF ch = 58 THEN [g EXCEPT !.c = "V"] ELSE Dead
    [] g.c = "A"  -> AfterValue(g, ch)
    [] g.c = "S"  -> IF ch = 34 THEN CompleteStr(g)
                     ELSE IF ch = 92 THEN [g EXCEPT !.c = "SE"]
                     ELSE IF ch < 32 THEN Dead
                     ELSE [g EXCEPT !.s = Append(@, ch)]
    [] g.c = "SE" -> IF ch = 117 THEN [g EXCEPT !.c = "SU", !.hx = 0, !.hn = 0]
                     ELSE IF ShortEscape(ch) >= 0 THEN PutChar(g, ShortEscape(ch)) ELSE Dead
    [] g.c = "SU" -> IF ~IsHex(ch) THEN Dead
                     ELSE LET u == g.hx * 16 + HexVal(ch) IN
                          IF g.hn = 3 THEN EndHex(g, u) ELSE [g EXCEPT !.hx = u, !.hn = @ + 1]
    [] g.c = "SL" -> IF ch = 92 THEN [g EXCEPT !.c = "SM"] ELSE Dead
    [] g.c = "SM" -> IF ch = 117 THEN [g EXCEPT !.c = "SU"] ELSE Dead
    [] g.c = "L"  -> IF ch # Head(g.lit) THEN Dead
                     ELSE IF Len(g.lit) = 1 THEN Complete(g, LitValue(g.s))
                     ELSE [g EXCEPT !.lit = Tail(@)]
    [] g.c = "N-" -> IF ch = 48 THEN Digit(g, "N0", ch)
                     ELSE IF IsDigit(ch) THEN Digit(g, "Ni", ch) ELSE Dead
    [] g.c = "N0" -> IF ch = 46 THEN [g EXCEPT !.c = "N."]
                     ELSE IF ch \in {69, 101} THEN [g EXCEPT !.c = "Ne"]
                     ELSE IF IsDigit(ch) THEN Dead ELSE EndNumber(g, ch)
    [] g.c = "Ni" -> IF IsDigit(ch) THEN Digit(g, "Ni", ch)
                     ELSE IF ch = 46 THEN [g EXCEPT !.c = "N."]
                     ELSE IF ch \in {69, 101} THEN [g EXCEPT !.c = "Ne"] ELSE EndNumber(g, ch)
    [] g.c = "N." -> IF IsDigit(ch) THEN [Digit(g, "Nf", ch) EXCEPT !.num.x = @ + 1] ELSE Dead
    [] g.c = "Nf" -> IF IsDigit(ch) THEN [Digit(g, "Nf", ch) EXCEPT !.num.x = @ + 1]
                     ELSE IF ch \in {69, 101} THEN [g EXCEPT !.c = "Ne"] ELSE EndNumber(g, ch)
    [] g.c = "Ne" -> IF ch = 43 THEN [g EXCEPT !.c = "Ns"]
                     ELSE IF ch = 45 THEN [g EXCEPT !.c = "Ns", !.num.eneg = TRUE]
                     ELSE IF IsDigit(ch) THEN [g EXCEPT !.c = "Nx", !.num.ed = <<ch - 48>>] ELSE Dead
    [] g.c = "Ns" -> IF IsDigit(ch) THEN [g EXCEPT !.c = "Nx", !.num.ed = <<ch - 48>>] ELSE Dead
    [] g.c = "Nx" -> IF IsDigit(ch) THEN [g EXCEPT !.num.ed = Append(@, ch - 48)] ELSE EndNumber(g, ch)

Run(g, text) == FoldLeft(Step, g, text)

\* what the text read so far denotes, if it may end here
NumFinal == {"N0", "Ni", "Nf", "Nx"}
Finish(g) ==
  LET h == IF g.stk = <<>> /\ g.c \in NumFinal THEN AfterNumber(g) ELSE g
  IN  IF h.c = "A" /\ h.stk = <<>> THEN [ok |-> TRUE, v |-> h.v] ELSE [ok |-> FALSE]

ParseText(text) == Finish(Run(Start, text))
=============================================================================
