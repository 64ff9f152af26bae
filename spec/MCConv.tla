------------------------------- MODULE MCConv -------------------------------
(***************************************************************************)
(* Every registered native type against a universe of JSON values           *)
(* (decoding) and of its own small values (encoding and back).              *)
(***************************************************************************)
EXTENDS JConform, Json, IOUtils, TLC

CONSTANTS Mode,      \* "conv" or "nat"
          Big        \* larger universes

Types == ToSet(ndJsonDeserialize(IOEnv.TYPES))

Tup(X, k) == [1..k -> X]
\* at most k elements of a set
Few(X, k) == LET s == SetToSeq(X) IN {s[i] : i \in 1..(IF Len(s) < k THEN Len(s) ELSE k)}

----------------------------------------------------------------------------
(* JSON values to decode *)
Nm(neg, d, e) == JNum([neg |-> neg, d |-> d, e |-> e])
Nums == {Nm(FALSE, <<>>, 0), Nm(TRUE, <<>>, 0), Nm(FALSE, <<1>>, 0), Nm(TRUE, <<1>>, 0), Nm(FALSE, <<5>>, -1), Nm(TRUE, <<9, 9>>, -1),
         Nm(FALSE, <<1, 2, 7>>, 2), Nm(FALSE, <<1, 2, 8>>, 2), Nm(FALSE, <<2, 5, 5, 9>>, 2), Nm(FALSE, <<2, 5, 6>>, 2),
         Nm(TRUE, <<1, 2, 8, 5>>, 2), Nm(TRUE, <<1, 2, 9>>, 2), Nm(FALSE, <<3, 2, 7, 6, 7>>, 4), Nm(FALSE, <<3, 2, 7, 6, 8>>, 4), Nm(FALSE, <<6, 5, 5, 3, 6>>, 4),
         Nm(TRUE, <<3, 2, 7, 6, 8, 9>>, 4), Nm(TRUE, <<3, 2, 7, 6, 9>>, 4),
         Nm(FALSE, <<2, 1, 4, 7, 4, 8, 3, 6, 4, 7>>, 9), Nm(FALSE, <<2, 1, 4, 7, 4, 8, 3, 6, 4, 8>>, 9), Nm(TRUE, <<2, 1, 4, 7, 4, 8, 3, 6, 4, 9>>, 9),
         Nm(FALSE, <<4, 2, 9, 4, 9, 6, 7, 2, 9, 5, 5>>, 9), Nm(FALSE, <<4, 2, 9, 4, 9, 6, 7, 2, 9, 6>>, 9),
         Nm(FALSE, <<1>>, 10), Nm(FALSE, <<1>>, 19), Nm(FALSE, <<2>>, 19), Nm(TRUE, <<1>>, 19), Nm(FALSE, <<1>>, 39), Nm(TRUE, <<3>>, 38), Nm(FALSE, <<1>>, -7),
         Nm(FALSE, <<9>>, 18), Nm(TRUE, <<9>>, 18)}
Tx(s) == JStr(s)
One == Nm(FALSE, <<1>>, 0)
Leaf == Nums \cup {JNull, JBool(TRUE), JBool(FALSE), Tx(<<>>), Tx(<<49>>), Tx(<<116, 114, 117, 101>>), Tx(<<128150, 97>>)}
Few1 == {JNull, JBool(TRUE), Nm(FALSE, <<3, 0, 0, 5>>, 2), Tx(<<97>>)}
KeyTexts == {<<97>>, <<>>, <<49>>, <<45, 49>>, <<43, 55>>, <<48, 57>>, <<51, 48, 48>>, <<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>, <<49, 46, 48>>, <<32, 49>>,
             <<45>>, <<43>>, <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>, <<45, 48>>, <<1632>>}
Arrs == {JArr(<<>>)} \cup {JArr(<<x>>) : x \in Leaf} \cup {JArr(s) : s \in Tup(Few1, 2)}
MkObj(s) == JObj(FoldLeft(LAMBDA m, p : PutAppend(m, p[1], p[2]), <<>>, s))
Objs == {JObj(<<>>)} \cup {MkObj(<<<<k, x>>>>) : k \in KeyTexts, x \in Few1}
        \cup {MkObj(<<<<k, x>>, <<l, y>>, <<k, z>>>>) : k \in {<<97>>, <<49>>, <<116, 114, 117, 101>>}, l \in {<<49>>, <<50>>, <<97>>, <<102, 97, 108, 115, 101>>},
                                                     x \in Few1, y \in Few1, z \in Few1}
Nested == {JArr(<<x>>) : x \in Few(Arrs, 14)} \cup {JArr(<<x, y>>) : x \in {JArr(<<One>>), JNull, JArr(<<>>)}, y \in Few(Arrs, 6)}
          \cup {MkObj(<<<<k, x>>>>) : k \in {<<97>>, <<53>>}, x \in Few(Arrs, 10) \cup Few(Objs, 30)}
          \cup {JArr(<<x>>) : x \in Few(Objs, 30)}
          \cup {MkObj(<<<<<<97>>, x>>, <<<<97>>, y>>>>) : x \in Few(Objs, 8), y \in Few(Objs, 8) \cup {JNull}}
          \cup {JArr(<<JArr(<<JArr(<<JBool(TRUE)>>)>>)>>), JArr(<<JArr(<<JArr(<<JNull>>)>>)>>), JArr(<<JArr(<<JBool(TRUE)>>)>>), JArr(<<JArr(<<>>), JArr(<<JArr(<<>>)>>)>>)}
NFs == {JNonFinite("nan"), JNonFinite("inf"), JNonFinite("ninf")}

\* different keys of an object that become the same key: no order is promised
RECURSIVE Collides(_)
Collides(v) ==
  CASE v.t = "arr" -> \E i \in 1..Len(v.a) : Collides(v.a[i])
    [] v.t = "obj" -> \/ \E i, j \in 1..Len(v.m) : i < j /\ LET a == ParseKey("i128", v.m[i][1]) b == ParseKey("i128", v.m[j][1]) IN a.ok /\ b.ok /\ a.k = b.k
                      \/ \E i \in 1..Len(v.m) : \E j \in 1..Len(v.m[i][2]) : Collides(v.m[i][2][j])
    [] OTHER -> FALSE
JsonValues == {v \in Leaf \cup Arrs \cup (IF Big THEN Objs ELSE Few(Objs, 130)) \cup Nested \cup NFs : ~Collides(v)}

----------------------------------------------------------------------------
(* native values to encode *)
KeySet(k) == CASE k = "str" -> {<<>>, <<97>>, <<98, 46>>}
               [] k = "bool" -> {<<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>}
               [] OTHER -> {<<48>>, <<55>>, <<49, 50>>}
NNum(neg, d, e) == [n |-> "num", v |-> [neg |-> neg, d |-> d, e |-> e]]
Small == {"u8", "u16", "u32", "i8", "i16", "i32"}
RECURSIVE Vals(_), Nestable(_)
Nestable(ty) == ty.c \notin {"opt", "json"}
Vals(ty) ==
  CASE ty.c = "str"  -> {[n |-> "str", s |-> s] : s \in {<<>>, <<97>>, <<34, 92, 47, 10, 128150, 127, 233>>}}
    [] ty.c = "bool" -> {[n |-> "bool", b |-> b] : b \in BOOLEAN}
    [] ty.c = "json" -> {[n |-> "json", v |-> v] : v \in {JNull, One, JArr(<<JNull, JBool(FALSE)>>), MkObj(<<<<<<98>>, One>>, <<<<97>>, JNull>>, <<<<98>>, Tx(<<98>>)>>>>)}}
    [] ty.c = "f64"  -> {NNum(FALSE, <<>>, 0), NNum(TRUE, <<>>, 0), NNum(FALSE, <<1>>, -1), NNum(FALSE, <<1>>, 21), NNum(TRUE, <<2, 5>>, 0), NNum(FALSE, <<1, 5>>, -7)}
    [] ty.c = "f32"  -> {NNum(FALSE, <<>>, 0), NNum(TRUE, <<>>, 0), NNum(FALSE, <<1, 5>>, 0), NNum(TRUE, <<2, 5>>, -1), NNum(FALSE, <<1, 6, 7, 7, 7, 2, 1, 6>>, 7)}
    [] ty.c = "int"  -> {NNum(FALSE, <<>>, 0), NNum(FALSE, <<1>>, 0), NNum(FALSE, <<1>>, 2)}
                        \cup (IF Signed(ty.r) THEN {NNum(TRUE, <<1>>, 0), NNum(TRUE, <<4, 2>>, 1)} ELSE {})
                        \cup (IF ty.r \in Small THEN {[n |-> "num", v |-> Bounds(ty.r)[i]] : i \in 1..2} ELSE {})
    [] ty.c = "opt"  -> {[n |-> "none"]} \cup (IF Nestable(ty.e) THEN {[n |-> "some", v |-> x] : x \in Vals(ty.e)} ELSE {})
    [] ty.c = "vec"  -> LET V == Vals(ty.e) F == Few(V, IF Big THEN 6 ELSE 3)
                        IN {[n |-> "list", a |-> s] : s \in {<<>>} \cup Tup(V, 1) \cup Tup(F, 2) \cup Tup(Few(V, 2), 3)}
    [] ty.c = "pairs" -> LET V == Vals(ty.e) F == Few(V, 2) KK == KeySet(ty.k)
                         IN {[n |-> "pairs", a |-> s] : s \in {<<>>} \cup Tup(KK \X V, 1) \cup Tup(KK \X F, 2)
                                                              \cup Tup(KK \X Few(F, IF Big THEN 2 ELSE 1), 3)}
    [] ty.c = "map" -> LET V == Few(Vals(ty.e), 4) KK == KeySet(ty.k) IN
                       {[n |-> "map", a |-> s] :
                          s \in {s \in {<<>>} \cup Tup(KK \X V, 1) \cup Tup(KK \X Few(V, 3), 2) :
                                   Len(s) = 2 => TextLess(s[1][1], s[2][1])}}

\* a pair list with equal keys adjacent, keys ascending
RECURSIVE Grouped(_)
Grouped(x) ==
  CASE x.n = "some" -> [x EXCEPT !.v = Grouped(@)]
    [] x.n = "list" -> [x EXCEPT !.a = [i \in 1..Len(x.a) |-> Grouped(x.a[i])]]
    [] x.n \in {"pairs", "map"} ->
         LET g == FoldLeft(LAMBDA m, p : PutAppend(m, p[1], Grouped(p[2])), <<>>, x.a)
         IN [x EXCEPT !.a = FoldLeft(LAMBDA acc, e : acc \o [j \in 1..Len(e[2]) |-> <<e[1], e[2][j]>>], <<>>, g)]
    [] x.n = "struct" -> [x EXCEPT !.f = [i \in 1..Len(x.f) |-> Grouped(x.f[i])]]
    [] x.n = "f32" -> [n |-> "num", v |-> x.v]
    [] OTHER -> x
Plain(r) == IF r.ok THEN [ok |-> TRUE, v |-> Grouped(r.v)] ELSE r

----------------------------------------------------------------------------
(* JSON values aimed at a type: per level a value of a fitting and of an     *)
(* unfitting kind, keys that parse and keys that do not, keys repeated       *)
GoodKey(k) == CASE k = "str" -> {<<97>>, <<49>>} [] k = "bool" -> {<<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>} [] OTHER -> {<<49>>, <<50>>}
BadKeys(k) == {x \in {<<97>>, <<51, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48>>} : ~ParseKey(k, x).ok}
RECURSIVE Fit(_), Unfit(_)
Fit(t) == CASE t.c = "str" -> Tx(<<97>>) [] t.c = "bool" -> JBool(TRUE) [] t.c \in {"int", "f64", "f32"} -> One [] t.c = "json" -> JArr(<<JNull>>)
            [] t.c = "opt" -> Fit(t.e) [] t.c = "vec" -> JArr(<<Fit(t.e)>>)
            [] t.c \in {"pairs", "map"} -> MkObj(<<<<CHOOSE k \in GoodKey(t.k) : TRUE, Fit(t.e)>>>>)
            [] OTHER -> JNull
Unfit(t) == CASE t.c = "opt" -> Unfit(t.e) [] t.c \in {"str", "vec"} -> One [] OTHER -> Tx(<<120>>)
Cell(t) == {Fit(t), Unfit(t), JNull}
Directed(t) ==
  CASE t.c = "vec" -> {JArr(s) : s \in UNION {Tup(Cell(t.e), k) : k \in 0..4}} \cup {JArr(<<v>>) : v \in IF t.e.c \in {"vec", "pairs", "map"} THEN {JArr(<<>>), JObj(<<>>)} ELSE {}}
    [] t.c \in {"pairs", "map"} ->
         LET ents == (GoodKey(t.k) \X Cell(t.e)) \cup (BadKeys(t.k) \X {Fit(t.e)})
         IN {MkObj(s) : s \in UNION {Tup(ents, k) : k \in 0..3}}
            \cup {MkObj([i \in 1..5 |-> <<CHOOSE k \in GoodKey(t.k) : TRUE, s[i]>>]) : s \in Tup({Fit(t.e), JNull}, 5)}
    [] OTHER -> {}
Aimed(t) == Directed(t) \cup (IF t.c = "opt" THEN Directed(t.e) ELSE {})
                       \cup (IF "e" \in DOMAIN t /\ t.c \in {"vec", "pairs", "map"} /\ t.e.c \in {"vec", "pairs", "map"}
                             THEN {IF t.c = "vec" THEN JArr(<<v, Fit(t.e)>>) ELSE MkObj(<<<<CHOOSE k \in GoodKey(t.k) : TRUE, v>>>>) : v \in Few(Directed(t.e), IF Big THEN 400 ELSE 120)}
                             ELSE {})

----------------------------------------------------------------------------
(* A call: a type, then a value, then the answer *)
VARIABLES ty, arg, st
vars == <<ty, arg, st>>
Init == ty \in Types /\ arg = <<>> /\ st = "typed"
Choose == /\ st = "typed"
          /\ \E x \in (IF Mode = "conv" THEN JsonValues \cup {v \in Aimed(ty) : ~Collides(v)} ELSE Vals(ty)) : arg' = x
          /\ st' = "called" /\ UNCHANGED ty
Next == Choose
Spec == Init /\ [][Next]_vars

\* the properties, on the specification
RECURSIVE Kinds(_, _)
\* the kinds match at every level
Kinds(t, v) ==
  CASE t.c = "json" -> TRUE
    [] t.c = "str" -> v.t = "str"  [] t.c = "bool" -> v.t = "bool"
    [] t.c \in {"int", "f64", "f32"} -> v.t \in {"num", "nf"}
    [] t.c = "opt" -> v.t = "null" \/ Kinds(t.e, v)
    [] t.c = "vec" -> v.t = "arr" /\ \A i \in 1..Len(v.a) : Kinds(t.e, v.a[i])
    [] t.c \in {"pairs", "map"} ->
         v.t = "obj" /\ \A i \in 1..Len(v.m) :
            /\ ParseKey(t.k, v.m[i][1]).ok
            /\ \A j \in 1..Len(v.m[i][2]) : (t.c = "pairs" \/ j = Len(v.m[i][2])) => Kinds(t.e, v.m[i][2][j])
ConvInv == st = "called" /\ Mode = "conv" =>
  LET r == FromJ(ty, arg, <<>>) IN
  /\ r.ok <=> Kinds(ty, arg)
  /\ ~r.ok => r.e = "ConvertError"
  /\ r.ok /\ ty.c = "opt" => (r.v = [n |-> "none"] <=> arg = JNull)
  /\ r.ok /\ ty.c = "int" => NumCmp(Bounds(ty.r)[1], r.v.v) <= 0 /\ NumCmp(r.v.v, Bounds(ty.r)[2]) <= 0 /\ TruncNum(r.v.v) = r.v.v
RoundInv == st = "called" /\ Mode = "nat" =>
  /\ WellFormed(ToJ(ty, arg))
  /\ Plain(FromJ(ty, ParseText(ToText(ToJ(ty, arg))).v, <<>>)) = [ok |-> TRUE, v |-> Grouped(arg)]

\* f32 results need the rounding relation: those are checked on recorded calls
RECURSIVE HasF32(_)
HasF32(t) == t.c = "f32" \/ (t.c = "struct" /\ \E i \in 1..Len(t.fs) : HasF32(t.fs[i].e)) \/ ("e" \in DOMAIN t /\ HasF32(t.e))
Emit ==
  IF st # "called" THEN TRUE
  ELSE IF Mode = "conv"
  THEN HasF32(ty) \/ PrintT(ToJson([in |-> [k |-> "conv", ty |-> ty, v |-> arg], exp |-> Plain(FromJ(ty, arg, <<>>))]))
  ELSE LET j == ToJ(ty, arg) IN
       PrintT(ToJson([in |-> [k |-> "nat", ty |-> ty, x |-> arg],
                      exp |-> [v |-> j, s |-> ToText(j), back |-> Plain(FromJ(ty, j, <<>>))]]))
=============================================================================
