------------------------------- MODULE MCBig --------------------------------
(***************************************************************************)
(* Families of texts that grow with n: deep, wide, long and unclosed.       *)
(* Lemma: which members are JSON texts; so large ones need no more than a   *)
(* run of the machine, and every run of the crate must come back.           *)
(***************************************************************************)
EXTENDS JConform, Json, TLC

CONSTANTS Small, Large, Long

VARIABLES f, n
Nest == {"arrays", "arrays_open", "arrays_over", "objects", "objects_open", "mixed", "mixed_bad", "siblings", "siblings_close", "quotes_nested"}
Flat == {"elements", "elements_open", "members", "same_key", "text", "text_open", "escapes", "escapes_open", "backslashes", "digits", "fraction", "zeros", "exponent", "white",
         "commas", "colons", "opens_in_text", "closes", "pairs", "highs"}
Sizes == 1..Small
Init == f \in Nest \cup Flat /\ n = 0
Next == n = 0 /\ UNCHANGED f /\ n' \in Sizes \cup {Large \div 2, Large} \cup (IF f \in Flat THEN {Long} ELSE {})
Spec == Init /\ [][Next]_<<f, n>>

Rep(s) == [i \in 1..(n * Len(s)) |-> s[((i - 1) % Len(s)) + 1]]
\* n copies of s with sep between
Sep(s, sep) == LET u == s \o sep IN [i \in 1..(n * Len(u) - Len(sep)) |-> u[((i - 1) % Len(u)) + 1]]
Member == <<34, 97, 34, 58>>
NumKey(i) == <<34>> \o DigitsOf(i) \o <<34, 58, 49>>
Text_ ==
  CASE f = "arrays" -> Rep(<<91>>) \o Rep(<<93>>)
    [] f = "arrays_open" -> Rep(<<91>>)
    [] f = "arrays_over" -> Rep(<<91>>) \o Rep(<<93>>) \o <<93>>
    [] f = "objects" -> Rep(<<123>> \o Member) \o <<49>> \o Rep(<<125>>)
    [] f = "objects_open" -> Rep(<<123>> \o Member)
    [] f = "mixed" -> Rep(<<91, 123>> \o Member) \o <<91, 93>> \o Rep(<<125, 93>>)
    [] f = "mixed_bad" -> Rep(<<91, 123>> \o Member) \o <<91, 93>> \o Rep(<<93, 125>>)
    [] f = "siblings" -> Rep(<<91, 49, 44>>) \o <<50>> \o Rep(<<44, 91, 93, 93>>)
    [] f = "siblings_close" -> Rep(<<91, 49, 44>>) \o Rep(<<93>>)
    [] f = "quotes_nested" -> Rep(<<91, 34, 91, 34, 44>>) \o <<34, 92, 34, 93, 34>> \o Rep(<<93>>)
    [] f = "elements" -> <<91>> \o Sep(<<110, 117, 108, 108>>, <<44, 32>>) \o <<93>>
    [] f = "elements_open" -> <<91>> \o Rep(<<49, 44>>)
    [] f = "members" -> <<123>> \o FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN <<>> ELSE <<44>>) \o NumKey(i), <<>>, [i \in 1..n |-> i]) \o <<125>>
    [] f = "same_key" -> <<123>> \o Sep(Member \o <<49>>, <<44>>) \o <<125>>
    [] f = "text" -> <<34>> \o Rep(<<128150>>) \o <<34>>
    [] f = "text_open" -> <<34>> \o Rep(<<97>>)
    [] f = "escapes" -> <<34>> \o Rep(<<92, 110>>) \o <<34>>
    [] f = "escapes_open" -> <<34>> \o Rep(<<92, 34>>)
    [] f = "backslashes" -> <<34>> \o Rep(<<92>>) \o <<34>>
    [] f = "digits" -> Rep(<<57>>)
    [] f = "fraction" -> <<48, 46>> \o Rep(<<48>>) \o <<49>>
    [] f = "zeros" -> <<48>> \o Rep(<<48>>)
    [] f = "exponent" -> <<49, 101, 45>> \o Rep(<<57>>)
    [] f = "white" -> Rep(<<32, 10>>) \o <<116, 114, 117, 101>> \o Rep(<<13, 9>>)
    [] f = "commas" -> <<91>> \o Rep(<<44>>) \o <<93>>
    [] f = "colons" -> <<123, 34, 97, 34>> \o Rep(<<58>>) \o <<49, 125>>
    [] f = "opens_in_text" -> <<91, 34>> \o Rep(<<91, 123>>) \o <<34, 93>>
    [] f = "closes" -> Rep(<<93>>)
    [] f = "pairs" -> <<34>> \o Rep(<<92, 117, 68, 56, 51, 68, 92, 117, 68, 67, 57, 54>>) \o <<34>>
    [] f = "highs" -> <<34>> \o Rep(<<92, 117, 68, 56, 51, 68>>) \o <<34>>

Valid == \/ f \in {"arrays", "objects", "mixed", "siblings", "quotes_nested", "elements", "members", "same_key", "text", "escapes", "opens_in_text", "pairs",
                   "fraction", "exponent", "white"}
         \/ f = "digits" /\ n <= 308
         \/ f = "backslashes" /\ n % 2 = 0
         \/ f = "colons" /\ n = 1
Lemma == n \in Sizes => (ParseText(Text_).ok <=> Valid)
Emit == n = 0 \/ PrintT(ToJson([in |-> [k |-> "accept", s |-> Text_], exp |-> [ok |-> Valid]]))
=============================================================================
