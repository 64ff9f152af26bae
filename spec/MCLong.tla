------------------------------- MODULE MCLong -------------------------------
(***************************************************************************)
(* Long paths: a unit of path text, or a step, repeated n times, applied to *)
(* shallow values.  Lemma: from a few repetitions on, the answer no longer  *)
(* depends on n, so the answer to very many is that to a few.               *)
(***************************************************************************)
EXTENDS JConform, Json, TLC
CONSTANTS Small, Mid, Huge
VARIABLES u, v, o, n
vars == <<u, v, o, n>>

N1 == SmallNum(1)
ka == <<97>>
Vals == {JNull, N1, JStr(ka), JArr(<<>>), JArr(<<JNull>>), JArr(<<JArr(<<N1>>)>>), JObj(<<<<ka, <<N1>>>>>>), JObj(<<<<ka, <<JNull, JArr(<<>>)>>>>>>),
         JObj(<<<<ka, <<JObj(<<<<ka, <<JBool(TRUE)>>>>>>)>>>>>>), JObj(<<<<<<>>, <<JObj(<<<<<<>>, <<N1>>>>>>)>>>>>>)}
\* a.  #0.  .  a\..  #x.  \#.
Units == {<<97, 46>>, <<35, 48, 46>>, <<46>>, <<97, 92, 46, 46>>, <<35, 120, 46>>, <<92, 35, 46>>}
StepUnits == {<<[w |-> "key", k |-> ka]>>, <<[w |-> "idx", i |-> 0]>>, <<[w |-> "key", k |-> ka], [w |-> "idx", i |-> 0]>>}
\* the operations on path text
IsText == o \in {"get", "del", "set"}
Writes == {"set", "update"}
Bad(x) == IsText /\ ~ParsePath(x).ok

Init == /\ v \in Vals /\ n = 0
        /\ \/ u \in Units /\ o \in {"get", "del", "set"}
           \/ u \in StepUnits /\ o \in {"find", "discard", "update", "find_mut"}
\* what a store through a long path builds is as deep as the path is long
Next == n = 0 /\ UNCHANGED <<u, v, o>> /\ n' \in (1..Small) \cup {Mid} \cup (IF o \notin Writes \/ Bad(u) THEN {Huge} ELSE {})
Spec == Init /\ [][Next]_vars

Rep(s, k) == [i \in 1..(k * Len(s)) |-> s[((i - 1) % Len(s)) + 1]]
Op(k) == LET b == [o |-> o] @@ (IF o \in Writes \cup {"find_mut"} THEN [x |-> N1] ELSE <<>>) @@ (IF o \in {"get", "del"} THEN <<>> ELSE [via |-> 0])
         IN IF IsText THEN b @@ [s |-> Rep(u, k)] ELSE b @@ [p |-> Rep(u, k)]
Answer(k) == RunOps(v, <<Op(k)>>, 1)
Few(k) == IF k = Huge THEN Small ELSE k
Lemma == n \in 4..Small /\ (o \notin Writes \/ Bad(u)) => Answer(n) = Answer(4)
Emit == n = 0 \/ PrintT(ToJson([in |-> [k |-> "hist", v |-> v, ops |-> <<(IF IsText THEN [Op(1) EXCEPT !.s = u] ELSE [Op(1) EXCEPT !.p = u]) @@ [n |-> n]>>],
                                exp |-> Answer(Few(n))]))
=============================================================================
