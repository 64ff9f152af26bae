------------------------------ MODULE MCDerive ------------------------------
(***************************************************************************)
(* Structs with derived implementations, against small values of them       *)
(* (encoding and back) and against objects that have each key absent, once  *)
(* or twice, with fitting and unfitting members, and further keys.          *)
(***************************************************************************)
EXTENDS MCConv

F == ty.fs
RECURSIVE SVals(_), Pick(_, _)
SVals(t) ==
  CASE t.c = "opq" -> {[n |-> "opq", v |-> 7], [n |-> "opq", v |-> 8]}
    [] t.c = "struct" -> LET per == [i \in 1..Len(t.fs) |-> Few(SVals(t.fs[i].e), 3)]
                             \* every field at each of its values, the others at one of two
                             at(i, x, k) == [j \in 1..Len(t.fs) |-> IF j = i THEN x ELSE Pick(per[j], k)]
                         IN IF t.fs = <<>> THEN {[n |-> "struct", f |-> <<>>]}
                            ELSE IF Len(t.fs) = 2
                            THEN {[n |-> "struct", f |-> <<x, y>>] : x \in per[1], y \in per[2]}
                            ELSE UNION {{[n |-> "struct", f |-> at(i, x, k)] : x \in per[i], k \in 1..2} : i \in 1..Len(t.fs)}
    [] t.c = "opt" -> {[n |-> "none"]} \cup {[n |-> "some", v |-> x] : x \in (IF Nestable(t.e) THEN Few(SVals(t.e), 3) ELSE {})}
    [] t.c = "vec" /\ t.e.c = "struct" -> {[n |-> "list", a |-> <<>>]} \cup {[n |-> "list", a |-> <<x>>] : x \in Few(SVals(t.e), 2)}
                                          \cup {[n |-> "list", a |-> <<x, y>>] : x \in Few(SVals(t.e), 2), y \in Few(SVals(t.e), 2)}
    [] t.c = "map" /\ t.e.c = "struct" -> {[n |-> "map", a |-> <<>>]} \cup {[n |-> "map", a |-> <<<<k, x>>>>] : k \in {<<>>, <<97>>}, x \in Few(SVals(t.e), 2)}
    [] OTHER -> Vals(t)
Pick(S, k) == LET s == SetToSeq(S) IN s[IF k <= Len(s) THEN k ELSE Len(s)]

\* members offered under a key: what the fields with that key encode to, null, and kinds that fit few types
Offered(k) ==
  LET es == {F[i].e : i \in {i \in 1..Len(F) : ~Ignored(F[i]) /\ FieldKey(F[i]) = k}}
  IN  UNION {Few({ToJ(e, x) : x \in SVals(e)}, 2) : e \in es} \cup {JNull, JArr(<<JBool(TRUE)>>), Nm(FALSE, <<2, 5, 5, 9>>, 2)}
Keys == {FieldKey(F[i]) : i \in {i \in 1..Len(F) : ~Ignored(F[i])}}
\* keys that the struct does not read: names of ignored and of renamed fields, and the raw spelling
Extras == ({F[i].nm : i \in 1..Len(F)} \cup {<<114, 35>> \o F[i].nm : i \in {i \in 1..Len(F) : F[i].raw}} \cup {<<>>, <<122, 122>>}) \ Keys
Lists(k) == LET S == Offered(k) IN {<<x>> : x \in S} \cup {<<x, y>> : x \in Few(S, 3), y \in Few(S, 3)}
Good(k) == LET i == CHOOSE i \in 1..Len(F) : ~Ignored(F[i]) /\ FieldKey(F[i]) = k IN <<ToJ(F[i].e, CHOOSE x \in SVals(F[i].e) : TRUE)>>
MemSet(m) == FoldLeft(LAMBDA acc, k : IF m[k] = <<>> THEN acc ELSE PutValues(acc, k, m[k]), <<>>, SetToSeq(DOMAIN m))
Objects ==
  LET ks == SetToSeq(Keys)
      base == [k \in Keys |-> Good(k)]
      all == IF Len(ks) <= 2 /\ Big
             THEN {m \in [Keys -> UNION {{<<>>} \cup Lists(k) : k \in Keys}] : \A k \in Keys : m[k] \in {<<>>} \cup Lists(k)}
             ELSE {base} \cup UNION {{[base EXCEPT ![k] = l] : l \in {<<>>} \cup Lists(k)} : k \in Keys}
                  \cup {[base EXCEPT ![p[1]] = <<>>, ![p[2]] = l] : p \in {q \in Keys \X Keys : q[1] # q[2]}, l \in {<<>>, <<JArr(<<JBool(TRUE)>>)>>}}
      plain == {MemSet(m) : m \in all}
      more == {FoldLeft(LAMBDA acc, k : PutValues(acc, k, <<v>>), MemSet(m), SetToSeq(Extras)) : m \in Few(all, 4), v \in {JNull, JStr(<<97>>)}}
              \cup {FoldLeft(LAMBDA acc, k : PutValues(acc, k, <<JNull, One>>), <<>>, SetToSeq(Extras))}
  IN  {JObj(m) : m \in plain \cup more}
NonObjects == {JNull, JBool(TRUE), One, JStr(<<97>>), JArr(<<>>), JArr(<<JObj(<<>>)>>), JNonFinite("nan")}
Docs == {v \in Objects \cup NonObjects : ~Collides(v)}

Enc == "enc" \in DOMAIN ty
ChooseD == /\ st = "typed" /\ (Mode = "conv" => ~Enc)
           /\ \E x \in (IF Mode = "conv" THEN Docs ELSE SVals(ty)) : arg' = x
           /\ st' = "called" /\ UNCHANGED ty
SpecD == Init /\ [][ChooseD]_vars

\* J17 on the specification: one member per field that is not ignored, under its key, in order
EncInv == st = "called" /\ Mode = "nat" =>
  LET j == ToJ(ty, arg)
      shown == SelectSeq([i \in 1..Len(F) |-> i], LAMBDA i : ~Ignored(F[i]))
  IN  /\ WellFormed(j) /\ IsObj(j)
      /\ {j.m[i][1] : i \in 1..Len(j.m)} = Keys
      /\ \A k \in Keys : ValuesOf(j.m, k) =
            LET s == SelectSeq(shown, LAMBDA i : FieldKey(F[i]) = k) IN [n \in 1..Len(s) |-> ToJ(F[s[n]].e, arg.f[s[n]])]
\* J18 on the specification
Distinct == Cardinality(Keys) = Cardinality({i \in 1..Len(F) : ~Ignored(F[i])})
RECURSIVE Settled(_, _)
Settled(t, x) ==
  CASE t.c = "struct" -> \A i \in 1..Len(t.fs) : IF Ignored(t.fs[i]) THEN x.f[i] = DefaultOf(t.fs[i].e) ELSE Settled(t.fs[i].e, x.f[i])
    [] x.n = "some" -> Settled(t.e, x.v)
    [] x.n = "list" -> \A i \in 1..Len(x.a) : Settled(t.e, x.a[i])
    [] x.n \in {"map", "pairs"} -> \A i \in 1..Len(x.a) : Settled(t.e, x.a[i][2])
    [] OTHER -> TRUE
DecInv == st = "called" =>
  IF Mode = "nat"
  THEN Distinct /\ Settled(ty, arg) => Plain(FromJ(ty, ToJ(ty, arg), <<>>)) = [ok |-> TRUE, v |-> Grouped(arg)]
  ELSE LET r == FromJ(ty, arg, <<>>) IN
       /\ ~IsObj(arg) => r = ConvErr
       /\ IsObj(arg) /\ Keys \subseteq {arg.m[i][1] : i \in 1..Len(arg.m)} => "MissingKey" \notin Kinds1(r) \/ \E i \in 1..Len(F) : F[i].e.c \notin {"int", "str", "bool", "f64"}
       /\ IsObj(arg) /\ ~(Keys \subseteq {arg.m[i][1] : i \in 1..Len(arg.m)}) => "MissingKey" \in Kinds1(r)
       \* other members and earlier duplicates do not matter
       /\ IsObj(arg) => r = FromJ(ty, JObj([i \in 1..Len(SelectSeq(arg.m, LAMBDA e : e[1] \in Keys)) |->
                                     LET e == SelectSeq(arg.m, LAMBDA q : q[1] \in Keys)[i] IN <<e[1], <<Last(e[2])>>>>]), <<>>)
       /\ r.ok => \A i \in 1..Len(F) : Ignored(F[i]) => r.v.f[i] = DefaultOf(F[i].e)

EmitD ==
  IF st # "called" THEN TRUE
  ELSE IF Mode = "conv" THEN PrintT(ToJson([in |-> [k |-> "conv", ty |-> ty, v |-> arg], exp |-> Plain(FromJ(ty, arg, <<>>))]))
  ELSE LET j == ToJ(ty, arg) IN
       PrintT(ToJson([in |-> [k |-> "nat", ty |-> ty, x |-> arg],
                      exp |-> IF Enc THEN [v |-> j, s |-> ToText(j)]
                              ELSE [v |-> j, s |-> ToText(j), back |-> Plain(FromJ(ty, j, <<>>))]]))
=============================================================================
