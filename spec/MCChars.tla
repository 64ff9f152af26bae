------------------------------ MODULE MCChars -------------------------------
(***************************************************************************)
(* Every character, in blocks: raw in a string, as an escape, as a          *)
(* surrogate pair, and printed.                                             *)
(***************************************************************************)
EXTENDS JConform, Json, TLC

CONSTANTS Mode,     \* "esc", "pair", "raw", "print", "keys"
          Block,    \* characters per case
          Stride    \* every Stride-th block (1: all)

VARIABLE b
Limit == CASE Mode = "esc" -> 65536 [] Mode = "pair" -> 1048576 [] OTHER -> 1114112
Blocks == {i \in 0..(Limit \div Block - 1) : i % Stride = 0 \/ i < 2 \/ i = Limit \div Block - 1 \/ (i + 1) % (65536 \div Block) = 0}
\* negative: one of 16 shares of the blocks, to spread the work
Init == b \in -16..-1
Next == b < 0 /\ b' \in {i \in Blocks : (i \div Stride) % 16 = -b - 1}
Spec == Init /\ [][Next]_b

Units == [i \in 1..Block |-> b * Block + i - 1]
Scalar(c) == c \notin 55296..57343
Scalars == SelectSeq(Units, Scalar)
Lower(s) == [i \in 1..Len(s) |-> IF s[i] \in 65..70 THEN s[i] + 32 ELSE s[i]]
\* mixed case by position
Hexed(u) == LET h == Hex4(u) IN IF u % 3 = 0 THEN Lower(h) ELSE IF u % 3 = 1 THEN h ELSE [h EXCEPT ![3] = Lower(<<@>>)[1], ![6] = Lower(<<@>>)[1]]
Cat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)
Quoted(s) == <<34>> \o s \o <<34>>
Put(in, exp) == PrintT(ToJson([in |-> in, exp |-> exp]))
ParseCase(s) == Put([k |-> "parse", s |-> s], ParseText(s))

EmitEsc ==
  LET sc == Scalars IN
  IF sc # <<>> /\ Len(sc) = Block
  THEN ParseCase(Quoted(Cat([i \in 1..Block |-> Hexed(Units[i])])))
  ELSE \A i \in 1..Block :
         \* lone surrogates: at the end, before a character, before an escape, before another surrogate
         LET u == Hexed(Units[i]) IN
         /\ ParseCase(Quoted(u)) /\ ParseCase(Quoted(u \o <<97>>)) /\ ParseCase(Quoted(u \o Hex4(97)))
         /\ ParseCase(Quoted(u \o <<92, 110>>)) /\ ParseCase(Quoted(u \o Hex4(55296 + (i % 1024))))
         /\ ParseCase(Quoted(Hex4(56320) \o u)) /\ ParseCase(Quoted(u \o Hex4(57344))) /\ ParseCase(Quoted(u \o Hex4(56319)))
EmitPair == ParseCase(Quoted(Cat([i \in 1..Block |->
              LET c == Units[i] IN Hexed(55296 + c \div 1024) \o Hexed(56320 + (c % 1024))])))
Plain(c) == Scalar(c) /\ c >= 32 /\ c # 34 /\ c # 92
EmitRaw == /\ ParseCase(Quoted(SelectSeq(Units, Plain)))
           /\ \A i \in 1..Block : Units[i] < 32 => ParseCase(Quoted(<<97, Units[i]>>)) /\ ParseCase(Quoted(<<92, Units[i]>>))
           /\ \A i \in 1..Block : Units[i] \in 32..300 => ParseCase(Quoted(<<92, Units[i]>>)) /\ ParseCase(<<Units[i]>>)
                                                         /\ ParseCase(<<Units[i], 49>>) /\ ParseCase(<<49, Units[i]>>)
                                                         /\ ParseCase(Quoted(<<92, 117, 48, 48, 48, Units[i]>>))
EmitPrint == /\ LET v == JStr(Scalars) IN Put([k |-> "print", v |-> v], [s |-> ToText(v)])
             /\ \A i \in 1..Block : Units[i] < 256 =>
                  LET v == JStr(<<Units[i]>>) IN Put([k |-> "print", v |-> v], [s |-> ToText(v)])
\* one character keys next to each other: order, and both ways
EmitKeys == LET v == JObj([i \in 1..Len(Scalars) |-> <<<<Scalars[i]>>, <<JBool(i % 2 = 0)>>>>]) IN
            Len(Scalars) > 0 => /\ Put([k |-> "print", v |-> v], [s |-> ToText(v)])
                                /\ Put([k |-> "round", v |-> v], [ok |-> TRUE, v |-> v, same |-> TRUE])
Emit == b >= 0 => CASE Mode = "esc" -> EmitEsc [] Mode = "pair" -> EmitPair [] Mode = "raw" -> EmitRaw [] Mode = "print" -> EmitPrint
          [] Mode = "keys" -> EmitKeys
=============================================================================
