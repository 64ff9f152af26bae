-------------------------------- MODULE MCEq --------------------------------
(* Pairs of small values: equality and copies *)
EXTENDS JConform, Json, TLC
CONSTANT Wide
VARIABLES x, y
vars == <<x, y>>

N(d) == JNum([neg |-> FALSE, d |-> d, e |-> 0])
Zero == N(<<>>)
NegZero == JNum([neg |-> TRUE, d |-> <<>>, e |-> 0])
Nf(w) == [t |-> "nf", w |-> w]
S(s) == JStr(s)
Leaves == {JNull, JBool(TRUE), JBool(FALSE), Zero, NegZero, N(<<1>>), N(<<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>), JNum([neg |-> TRUE, d |-> <<1>>, e |-> 0]),
           JNum([neg |-> FALSE, d |-> <<1>>, e |-> -20]), JNum([neg |-> FALSE, d |-> <<2>>, e |-> -20]),
           Nf("nan"), Nf("inf"), Nf("ninf"), S(<<>>), S(<<97>>), S(<<65>>), S(<<97, 98>>), S(<<49>>), S(<<110, 117, 108, 108>>)}
Some == {JNull, Zero, NegZero, N(<<1>>), Nf("nan")}
Tup(X, k) == [1..k -> X]
Arrs == {JArr(<<>>)} \cup {JArr(s) : s \in Tup(Some, 1)} \cup {JArr(s) : s \in Tup(Some, 2)} \cup {JArr(s) : s \in Tup({JNull, N(<<1>>)}, 3)}
A == <<97>>
B == <<98>>
Vs == {<<Zero>>, <<NegZero>>, <<N(<<1>>)>>, <<JNull>>, <<Nf("nan")>>, <<N(<<1>>), JNull>>, <<JNull, N(<<1>>)>>, <<N(<<1>>), N(<<1>>)>>,
       <<N(<<1>>), JNull, N(<<1>>)>>, <<JNull, N(<<1>>), N(<<1>>)>>, <<Zero, NegZero>>}
Objs == {JObj(<<>>)} \cup {JObj(<<<<k, vs>>>>) : k \in {A, B, <<>>}, vs \in Vs}
        \cup {JObj(<<<<A, vs>>, <<B, ws>>>>) : vs \in Vs, ws \in IF Wide THEN Vs ELSE {<<Zero>>, <<N(<<1>>), JNull>>, <<JNull, N(<<1>>)>>}}
Nested == {JArr(<<v>>) : v \in {JArr(<<>>), JArr(<<JNull>>), JArr(<<JArr(<<>>)>>), JObj(<<>>), JObj(<<<<A, <<N(<<1>>), JNull>>>>>>), JObj(<<<<A, <<JNull, N(<<1>>)>>>>>>)}}
          \cup {JObj(<<<<A, <<v, w>>>>>>) : v, w \in {JArr(<<>>), JArr(<<Zero>>), JArr(<<NegZero>>), JObj(<<>>), JObj(<<<<A, <<JNull>>>>>>), JObj(<<<<A, <<JNull, JNull>>>>>>)}}
Vals == Leaves \cup Arrs \cup Objs \cup Nested
None == [t |-> "none"]

Init == x \in Vals /\ y = None
Next == y = None /\ y' \in Vals /\ UNCHANGED x
Spec == Init /\ [][Next]_vars

\* what equality is, apart from how it is computed
Both == y # None
SameInv      == EqVal(x, x) = ~HasNaN(x)
SymmetricInv == Both => EqVal(x, y) = EqVal(y, x)
ExactInv     == Both /\ ~HasZero(x) /\ ~HasNaN(x) => EqVal(x, y) = (x = y)
TransInv     == Both /\ EqVal(x, y) => \A z \in Leaves \cup Nested : EqVal(x, z) = EqVal(y, z)
InsideInv    == Both => /\ EqVal(JArr(<<x>>), JArr(<<y>>)) = EqVal(x, y)
                        /\ EqVal(JObj(<<<<A, <<x, JNull>>>>>>), JObj(<<<<A, <<y, JNull>>>>>>)) = EqVal(x, y)
TextInv      == Both /\ EqVal(x, y) /\ ~HasZero(x) => ToText(x) = ToText(y)
Emit == Both => LET c == [k |-> "eq", a |-> x, b |-> y] IN PrintT(ToJson([in |-> c, exp |-> Expected(c)]))
=============================================================================
