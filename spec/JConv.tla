------------------------------- MODULE JConv --------------------------------
(***************************************************************************)
(* Native types and values, and how they map to JSON values and back.       *)
(*                                                                          *)
(* Types:  [c |-> "str"|"bool"|"json"|"f64"|"f32"]  [c |-> "int", r |-> ..] *)
(*         [c |-> "vec", e]  [c |-> "opt", e]  [c |-> "pairs"|"map", k, e]  *)
(*   key types k: "str", "bool", or an integer type name                    *)
(* Native values:  [n |-> "str", s]  [n |-> "bool", b]  [n |-> "num", v]    *)
(*   [n |-> "json", v]  [n |-> "list", a]  [n |-> "none"]  [n |-> "some", v]*)
(*   [n |-> "pairs", a |-> Seq(<<key text, value>>)]                        *)
(*   [n |-> "map", a |-> the same, in ascending key order, keys distinct]   *)
(*                                                                          *)
(* Structs with derived implementations: [c |-> "struct", id, fs] where a    *)
(* field is [nm (name without r#), raw, at (its attributes in order), e].    *)
(* The attributes that matter are [a |-> "key", s |-> literal source] and    *)
(* [a |-> "ignore"].  A value is [n |-> "struct", f |-> the field values].   *)
(* The type [c |-> "opq"] has no implementations and default 7: only an      *)
(* ignored field can have it.                                               *)
(***************************************************************************)
EXTENDS JRound, JRustLit

IntNames == {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"}
Signed(r) == r \in {"i8", "i16", "i32", "i64", "i128", "isize"}

\* the largest magnitudes, as digits
P7 == <<1,2,8>>                P8 == <<2,5,5>>
P15 == <<3,2,7,6,8>>           P16 == <<6,5,5,3,5>>
P31 == <<2,1,4,7,4,8,3,6,4,8>> P32 == <<4,2,9,4,9,6,7,2,9,5>>
P63 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>
P64 == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
P127 == <<1,7,0,1,4,1,1,8,3,4,6,0,4,6,9,2,3,1,7,3,1,6,8,7,3,0,3,7,1,5,8,8,4,1,0,5,7,2,8>>
P128 == <<3,4,0,2,8,2,3,6,6,9,2,0,9,3,8,4,6,3,4,6,3,3,7,4,6,0,7,4,3,1,7,6,8,2,1,1,4,5,5>>
\* digits minus one, for a number that does not end in 0
Pred(d) == [d EXCEPT ![Len(d)] = @ - 1]
IntNum(neg, d) == Normal(neg, d, 0)
Bounds(r) ==
  CASE r = "i8" -> <<IntNum(TRUE, P7), IntNum(FALSE, Pred(P7))>>
    [] r = "i16" -> <<IntNum(TRUE, P15), IntNum(FALSE, Pred(P15))>>
    [] r = "i32" -> <<IntNum(TRUE, P31), IntNum(FALSE, Pred(P31))>>
    [] r \in {"i64", "isize"} -> <<IntNum(TRUE, P63), IntNum(FALSE, Pred(P63))>>
    [] r = "i128" -> <<IntNum(TRUE, P127), IntNum(FALSE, Pred(P127))>>
    [] r = "u8" -> <<NZero(FALSE), IntNum(FALSE, P8)>>
    [] r = "u16" -> <<NZero(FALSE), IntNum(FALSE, P16)>>
    [] r = "u32" -> <<NZero(FALSE), IntNum(FALSE, P32)>>
    [] r \in {"u64", "usize"} -> <<NZero(FALSE), IntNum(FALSE, P64)>>
    [] r = "u128" -> <<NZero(FALSE), IntNum(FALSE, P128)>>

\* -1, 0, 1 for signed numbers
NumCmp(a, b) ==
  IF a.d = <<>> /\ b.d = <<>> THEN 0
  ELSE IF a.d = <<>> THEN IF b.neg THEN 1 ELSE -1
  ELSE IF b.d = <<>> THEN IF a.neg THEN -1 ELSE 1
  ELSE IF a.neg # b.neg THEN IF a.neg THEN -1 ELSE 1
  ELSE IF a.neg THEN -MagCmp(a, b) ELSE MagCmp(a, b)

\* toward zero, as an integer without a sign on zero
TruncNum(n) ==
  IF n.d = <<>> \/ n.e < 0 THEN NZero(FALSE)
  ELSE IF Len(n.d) <= n.e + 1 THEN n
  ELSE Normal(n.neg, SubSeq(n.d, 1, n.e + 1), 0)

ToInt(n, r) ==
  LET t == TruncNum(n) b == Bounds(r)
  IN  IF NumCmp(t, b[1]) < 0 THEN b[1] ELSE IF NumCmp(t, b[2]) > 0 THEN b[2] ELSE t

\* the exact decimal of a double given by its shortest decimal
Exact(n, tab) ==
  IF \E i \in 1..Len(tab) : tab[i].s = n
  THEN [(tab[CHOOSE i \in 1..Len(tab) : tab[i].s = n].x) EXCEPT !.neg = n.neg] ELSE n

----------------------------------------------------------------------------
(* Keys: the canonical texts, and parsing.  A key type is "str", "bool" or  *)
(* an integer type.                                                         *)
KeyIntDigits(s) == [i \in 1..Len(s) |-> s[i] - 48]
IsDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : s[i] \in 48..57
\* the canonical text of the key parsed from s, or failure
ParseKey(k, s) ==
  CASE k = "str" -> [ok |-> TRUE, k |-> s]
    [] k = "bool" -> IF s \in {<<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>}
                     THEN [ok |-> TRUE, k |-> s] ELSE [ok |-> FALSE]
    [] OTHER ->
       LET sgn == s # <<>> /\ (s[1] = 43 \/ (s[1] = 45 /\ Signed(k)))
           ds == IF sgn THEN Tail(s) ELSE s
       IN  IF ~IsDigits(ds) THEN [ok |-> FALSE]
           ELSE LET n == Normal(sgn /\ s[1] = 45, KeyIntDigits(ds), 0)
                    b == Bounds(k)
                IN  IF NumCmp(n, b[1]) < 0 \/ NumCmp(n, b[2]) > 0 THEN [ok |-> FALSE]
                    ELSE [ok |-> TRUE, k |-> PrintNum(IF n.d = <<>> THEN NZero(FALSE) ELSE n)]

----------------------------------------------------------------------------
(* Fields of structs *)
Ignored(f) == \E i \in 1..Len(f.at) : f.at[i].a = "ignore"
Keyed(f) == SelectSeq(f.at, LAMBDA a : a.a = "key")
FieldKey(f) == IF Keyed(f) # <<>> THEN LitText(Keyed(f)[1].s) ELSE f.nm

DefaultOf(ty) ==
  CASE ty.c = "str" -> [n |-> "str", s |-> <<>>]
    [] ty.c = "bool" -> [n |-> "bool", b |-> FALSE]
    [] ty.c \in {"int", "f64", "f32"} -> [n |-> "num", v |-> NZero(FALSE)]
    [] ty.c = "opt" -> [n |-> "none"]
    [] ty.c = "vec" -> [n |-> "list", a |-> <<>>]
    [] ty.c \in {"pairs", "map"} -> [n |-> ty.c, a |-> <<>>]
    [] ty.c = "opq" -> [n |-> "opq", v |-> 7]

----------------------------------------------------------------------------
(* Encoding: native values to JSON values, with exact decimals *)
RECURSIVE ToJ(_, _)
ToJ(ty, x) ==
  CASE x.n = "struct" ->
         JObj(FoldLeft(LAMBDA m, i : IF Ignored(ty.fs[i]) THEN m
                                     ELSE PutAppend(m, FieldKey(ty.fs[i]), ToJ(ty.fs[i].e, x.f[i])),
                       <<>>, [i \in 1..Len(x.f) |-> i]))
    [] x.n = "str"  -> JStr(x.s)
    [] x.n = "bool" -> JBool(x.b)
    [] x.n = "num"  -> JNum(x.v)
    [] x.n = "nf"   -> JNonFinite(x.w)
    [] x.n = "json" -> x.v
    [] x.n = "none" -> JNull
    [] x.n = "some" -> ToJ(ty.e, x.v)
    [] x.n = "list" -> JArr([i \in 1..Len(x.a) |-> ToJ(ty.e, x.a[i])])
    [] x.n \in {"pairs", "map"} ->
         JObj(FoldLeft(LAMBDA m, p : PutAppend(m, p[1], ToJ(ty.e, p[2])), <<>>, x.a))

----------------------------------------------------------------------------
(* Decoding: a JSON value as a type.  tab gives exact decimals of doubles.  *)
\* a failure with its error kind, or several of which any may be reported
ConvErr == [ok |-> FALSE, e |-> "ConvertError"]
Fails(S) == IF Cardinality(S) = 1 THEN [ok |-> FALSE, e |-> CHOOSE x \in S : TRUE] ELSE [ok |-> FALSE, es |-> S]
Kinds1(r) == IF r.ok THEN {} ELSE IF "es" \in DOMAIN r THEN r.es ELSE {r.e}
Conv(x) == [ok |-> TRUE, v |-> x]

\* all results of a sequence, or an error of one
AllOk(rs) == \A i \in 1..Len(rs) : rs[i].ok
AnyOf(rs) == Fails(UNION {Kinds1(rs[i]) : i \in 1..Len(rs)})

PairsOf(n, all) ==
  IF \A i \in 1..Len(all) : all[i].k.ok /\ all[i].r.ok
  THEN Conv([n |-> n, a |-> [i \in 1..Len(all) |-> <<all[i].k.k, all[i].r.v>>]])
  ELSE Fails(UNION {IF all[i].k.ok THEN {} ELSE {"ConvertError"} : i \in 1..Len(all)}
             \cup UNION {Kinds1(all[i].r) : i \in 1..Len(all)})

RECURSIVE FromJ(_, _, _)
FromJ(ty, v, tab) ==
  CASE ty.c = "json" -> Conv([n |-> "json", v |-> v])
    [] ty.c = "str"  -> IF v.t = "str" THEN Conv([n |-> "str", s |-> v.s]) ELSE ConvErr
    [] ty.c = "bool" -> IF v.t = "bool" THEN Conv([n |-> "bool", b |-> v.b]) ELSE ConvErr
    [] ty.c = "f64"  -> IF v.t = "num" THEN Conv([n |-> "num", v |-> v.n])
                        ELSE IF v.t = "nf" THEN Conv([n |-> "nf", w |-> v.w]) ELSE ConvErr
    [] ty.c = "f32"  -> IF v.t = "num" THEN Conv([n |-> "f32", v |-> Exact(v.n, tab)])
                        ELSE IF v.t = "nf" THEN Conv([n |-> "nf", w |-> v.w]) ELSE ConvErr
    [] ty.c = "int"  -> IF v.t = "num" THEN Conv([n |-> "num", v |-> ToInt(Exact(v.n, tab), ty.r)])
                        ELSE IF v.t = "nf"
                        THEN Conv([n |-> "num", v |-> IF v.w = "nan" THEN NZero(FALSE)
                                                       ELSE Bounds(ty.r)[IF v.w = "inf" THEN 2 ELSE 1]])
                        ELSE ConvErr
    [] ty.c = "opt"  -> IF v.t = "null" THEN Conv([n |-> "none"])
                        ELSE LET r == FromJ(ty.e, v, tab)
                             IN IF r.ok THEN Conv([n |-> "some", v |-> r.v]) ELSE r
    [] ty.c = "vec"  -> IF v.t # "arr" THEN ConvErr
                        ELSE LET rs == [i \in 1..Len(v.a) |-> FromJ(ty.e, v.a[i], tab)]
                             IN IF AllOk(rs) THEN Conv([n |-> "list", a |-> [i \in 1..Len(rs) |-> rs[i].v]])
                                ELSE AnyOf(rs)
    [] ty.c = "pairs" ->
         IF v.t # "obj" THEN ConvErr
         ELSE LET all == FoldLeft(LAMBDA acc, e : acc \o [j \in 1..Len(e[2]) |->
                                      [k |-> ParseKey(ty.k, e[1]), r |-> FromJ(ty.e, e[2][j], tab)]],
                                  <<>>, v.m)
              IN PairsOf("pairs", all)
    [] ty.c = "map" ->
         IF v.t # "obj" THEN ConvErr
         ELSE LET all == [i \in 1..Len(v.m) |->
                            [k |-> ParseKey(ty.k, v.m[i][1]), r |-> FromJ(ty.e, Last(v.m[i][2]), tab)]]
              IN PairsOf("map", all)
    [] ty.c = "struct" ->
         IF v.t # "obj" THEN ConvErr
         ELSE LET one(f) == IF Ignored(f) THEN Conv(DefaultOf(f.e))
                            ELSE LET i == KeyPos(v.m, FieldKey(f))
                                 IN IF i = 0 THEN [ok |-> FALSE, e |-> "MissingKey"] ELSE FromJ(f.e, Last(v.m[i][2]), tab)
                  rs == [i \in 1..Len(ty.fs) |-> one(ty.fs[i])]
              IN IF AllOk(rs) THEN Conv([n |-> "struct", f |-> [i \in 1..Len(rs) |-> rs[i].v]])
                 ELSE AnyOf(rs)
=============================================================================
