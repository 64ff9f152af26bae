------------------------------ MODULE JRustLit ------------------------------
(***************************************************************************)
(* The text that the source of a Rust string literal denotes.               *)
(***************************************************************************)
EXTENDS JValue

RHexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87
RHexNum(s) == FoldLeft(LAMBDA n, c : 16 * n + RHexVal(c), 0, s)

RawHashes(s) == LET q == CHOOSE i \in 2..Len(s) : s[i] = 34 /\ \A j \in 2..(i - 1) : s[j] # 34 IN q - 2
\* r##"..."##
RawText(s) == LET n == RawHashes(s) IN SubSeq(s, n + 3, Len(s) - n - 1)

RECURSIVE Unescape(_, _)
Unescape(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] # 92 THEN <<s[i]>> \o Unescape(s, i + 1)
  ELSE CASE s[i + 1] = 110 -> <<10>> \o Unescape(s, i + 2)
         [] s[i + 1] = 114 -> <<13>> \o Unescape(s, i + 2)
         [] s[i + 1] = 116 -> <<9>> \o Unescape(s, i + 2)
         [] s[i + 1] = 48 -> <<0>> \o Unescape(s, i + 2)
         [] s[i + 1] \in {34, 39, 92} -> <<s[i + 1]>> \o Unescape(s, i + 2)
         [] s[i + 1] = 120 -> <<RHexNum(SubSeq(s, i + 2, i + 3))>> \o Unescape(s, i + 4)
         [] s[i + 1] = 117 ->
              LET e == CHOOSE j \in (i + 3)..Len(s) : s[j] = 125 /\ \A k \in (i + 3)..(j - 1) : s[k] # 125
              IN <<RHexNum(SelectSeq(SubSeq(s, i + 3, e - 1), LAMBDA c : c # 95))>> \o Unescape(s, e + 1)

LitText(s) == IF s[1] = 114 THEN RawText(s) ELSE Unescape(SubSeq(s, 2, Len(s) - 1), 1)
=============================================================================
