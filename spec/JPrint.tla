------------------------------- MODULE JPrint -------------------------------
(***************************************************************************)
(* The canonical text of a value: keys ascending, the values of a repeated  *)
(* key oldest first, ", " and ": " as separators, printable ASCII only.     *)
(* A number that is not finite, [t |-> "nf"], is written as null.           *)
(***************************************************************************)
EXTENDS JNumber

JNonFinite(w) == [t |-> "nf", w |-> w]          \* w: "nan", "inf", "ninf"

HexDigit(h) == IF h < 10 THEN 48 + h ELSE 55 + h
Hex4(u) == <<92, 117, HexDigit(u \div 4096), HexDigit((u \div 256) % 16),
                      HexDigit((u \div 16) % 16), HexDigit(u % 16)>>

EscapeChar(cp) ==
  CASE cp = 34 -> <<92, 34>>   [] cp = 92 -> <<92, 92>>  [] cp = 47 -> <<92, 47>>
    [] cp = 8  -> <<92, 98>>   [] cp = 12 -> <<92, 102>> [] cp = 10 -> <<92, 110>>
    [] cp = 13 -> <<92, 114>>  [] cp = 9  -> <<92, 116>>
    [] cp \in 32..126 -> <<cp>>
    [] cp > 65535 -> Hex4(55296 + (cp - 65536) \div 1024) \o Hex4(56320 + ((cp - 65536) % 1024))
    [] OTHER -> Hex4(cp)

PrintText(s) == <<34>> \o FoldLeft(LAMBDA acc, cp : acc \o EscapeChar(cp), <<>>, s) \o <<34>>

RECURSIVE JoinFrom(_, _)
JoinFrom(parts, i) ==
  IF i > Len(parts) THEN <<>>
  ELSE (IF i = 1 THEN <<>> ELSE <<44, 32>>) \o parts[i] \o JoinFrom(parts, i + 1)
Join(parts) == JoinFrom(parts, 1)

RECURSIVE ToText(_)
ToText(v) ==
  CASE v.t = "null" -> <<110, 117, 108, 108>>
    [] v.t = "nf"   -> <<110, 117, 108, 108>>
    [] v.t = "bool" -> IF v.b THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
    [] v.t = "num"  -> PrintNum(v.n)
    [] v.t = "str"  -> PrintText(v.s)
    [] v.t = "arr"  -> <<91>> \o Join([i \in 1..Len(v.a) |-> ToText(v.a[i])]) \o <<93>>
    [] v.t = "obj"  ->
         LET Members(e) == LET k == PrintText(e[1]) IN
                           [j \in 1..Len(e[2]) |-> k \o <<58, 32>> \o ToText(e[2][j])]
         IN  <<123>> \o Join(FoldLeft(LAMBDA acc, e : acc \o Members(e), <<>>, v.m)) \o <<125>>

\* what reading the canonical text gives back
RECURSIVE Normalize(_)
Normalize(v) ==
  CASE v.t = "nf"  -> JNull
    [] v.t = "arr" -> JArr([i \in 1..Len(v.a) |-> Normalize(v.a[i])])
    [] v.t = "obj" -> JObj([i \in 1..Len(v.m) |->
                        <<v.m[i][1], [j \in 1..Len(v.m[i][2]) |-> Normalize(v.m[i][2][j])]>>])
    [] OTHER -> v
=============================================================================
