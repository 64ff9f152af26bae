------------------------------ MODULE JConform ------------------------------
(***************************************************************************)
(* What the crate may answer in each kind of case.  A case is a record with *)
(* its kind k, its inputs, the observation obs, and optionally tab (and     *)
(* tab32), neighbourhood entries of the doubles (and of the f32) in it.     *)
(*                                                                          *)
(* Expected(c) is the answer of the model where it is one definite value    *)
(* with short decimals: the vectors that the model generates carry it.      *)
(* Conforms(c) decides an observation, whatever the numbers in it.          *)
(***************************************************************************)
EXTENDS JParse, JOps, JConv, JEq, JError

Opt(c, f, default) == IF f \in DOMAIN c THEN c[f] ELSE default
Tab(c)   == Opt(c, "tab", <<>>)
Tab32(c) == Opt(c, "tab32", <<>>)
Agreed(r) == {"differ", "crash"} \cap DOMAIN r = {}

----------------------------------------------------------------------------
(* Native results *)

\* 2^128 - 2^103: a decimal at or above it has no finite nearest f32
Inf32 == IntNum(FALSE, <<3,4,0,2,8,2,3,5,6,7,7,9,7,3,3,6,6,1,6,3,7,5,3,9,3,9,5,4,5,8,1,4,2,5,6,8,4,4,8>>)
F32Of(D, o, tab32) ==
  IF MagCmp(D, Inf32) >= 0
  THEN o = [n |-> "nf", w |-> IF D.neg THEN "ninf" ELSE "inf"]
  ELSE /\ o.n = "num"
       /\ \E i \in 1..Len(tab32) : tab32[i].s = o.v /\ Nearest(D, tab32[i])

RECURSIVE NatMatch(_, _, _)
NatMatch(x, o, tab32) ==
  CASE x.n = "f32"  -> F32Of(x.v, o, tab32)
    [] x.n = "some" -> o.n = "some" /\ NatMatch(x.v, o.v, tab32)
    [] x.n = "list" -> /\ o.n = "list" /\ Len(x.a) = Len(o.a)
                       /\ \A i \in 1..Len(x.a) : NatMatch(x.a[i], o.a[i], tab32)
    [] x.n \in {"pairs", "map"} ->
         \* different keys come in any order: compared in ascending key order
         LET g == FoldLeft(LAMBDA m, p : PutAppend(m, p[1], p[2]), <<>>, x.a)
             f == FoldLeft(LAMBDA acc, e : acc \o [j \in 1..Len(e[2]) |-> <<e[1], e[2][j]>>], <<>>, g)
         IN  /\ o.n = x.n /\ "adj" \notin DOMAIN o /\ Len(f) = Len(o.a)
             /\ \A i \in 1..Len(f) : f[i][1] = o.a[i][1] /\ NatMatch(f[i][2], o.a[i][2], tab32)
    [] x.n = "struct" -> /\ o.n = "struct" /\ Len(x.f) = Len(o.f)
                         /\ \A i \in 1..Len(x.f) : NatMatch(x.f[i], o.f[i], tab32)
    [] OTHER -> x = o

ConvMatch(r, o, tab32) ==
  IF r.ok THEN Agreed(o) /\ o.ok /\ NatMatch(r.v, o.v, tab32)
  ELSE IF "es" \in DOMAIN r THEN Agreed(o) /\ ~o.ok /\ DOMAIN o = {"ok", "e"} /\ o.e \in r.es
  ELSE o = r

----------------------------------------------------------------------------
Whole(c) == ParseText(c.t)
Err(e) == [ok |-> FALSE, e |-> e]
Text(s) == [ok |-> TRUE, s |-> s]

\* one-shot functions; a conversion result is left in r
OneShot(c) ==
  LET w == Whole(c) IN
  IF ~w.ok THEN Err("Parse")
  ELSE IF c.o = "decode" THEN [ok |-> TRUE, r |-> FromJ(c.ty, w.v, Tab(c))]
  ELSE LET p == ParsePath(c.s) IN
  IF ~p.ok THEN Err("PathSyntaxError")
  ELSE IF c.o = "set" THEN Text(ToText(Update(w.v, p.segs, Normalize(ToJ(c.ty, c.x)))))
  ELSE LET f == Find(w.v, p.segs) IN
  IF ~f.ok THEN f
  ELSE IF c.o = "del" THEN Text(ToText(TakeOut(w.v, p.segs)))
  ELSE [ok |-> TRUE, r |-> FromJ(c.ty, f.v, Tab(c))]

OneMatch(c) ==
  LET e == OneShot(c) IN
  IF "r" \in DOMAIN e THEN ConvMatch(e.r, c.obs, Tab32(c)) ELSE c.obs = e

Built(c) ==
  IF c.o = "object" THEN JObj(FoldLeft(LAMBDA m, p : PutAppend(m, p[1], p[2]), <<>>, c.e))
  ELSE JArr(c.e)

\* the fixed shape with varying leaves of the harness
SmallDigits(n) == LET t == DigitsOf(n) IN [j \in 1..Len(t) |-> t[j] - 48]
SmallNum(i) == JNum(Normal(i < 0, SmallDigits(IF i < 0 THEN -i ELSE i), 0))
Sgn(i) == IF i < 0 THEN <<45>> \o DigitsOf(-i) ELSE DigitsOf(i)
Mixed(c) ==
  LET n == SmallNum(c.i)
      l == JArr([i \in 1..Len(c.l) |-> SmallNum(c.l[i])])
      opt == IF c.b THEN n ELSE JNull
      x == JStr(c.s)
      inner == JObj(<<<<c.s, <<JBool(c.b)>>>>>>)
      list == JArr(<<n, x, JBool(c.b), JArr(<<>>), inner, opt, l>>)
      obj == JObj(<<<<<<110>>, <<JObj(<<>>)>>>>, <<<<120>>, <<x, JNull>>>>>>)
      bk == IF c.b THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
  IN  JObj(FoldLeft(LAMBDA m, p : PutAppend(m, p[1], p[2]), <<>>,
        <<<<c.k, n>>, <<c.k, list>>, <<Sgn(c.i), obj>>, <<<<99>>, l>>, <<bk, opt>>>>))

----------------------------------------------------------------------------
RECURSIVE RunOps(_, _, _)
RunOps(v, ops, i) ==
  IF i > Len(ops) THEN <<>>
  ELSE LET a == Apply(v, ops[i]) IN <<[r |-> a.r, v |-> a.v]>> \o RunOps(a.v, ops, i + 1)

Expected(c) ==
  CASE c.k = "parse" -> ParseText(c.s)
    [] c.k = "accept" -> [ok |-> ParseText(c.s).ok]
    [] c.k = "print" -> [s |-> ToText(c.v)]
    [] c.k = "round" -> [ok |-> TRUE, v |-> Normalize(c.v), same |-> TRUE]
    [] c.k = "hist"  -> RunOps(c.v, c.ops, 1)
    [] c.k = "path"  -> ParsePath(c.s)
    [] c.k = "eq"    -> [eq |-> EqVal(c.a, c.b), clone |-> c.a]
    [] c.k = "fail"  -> IF ParseText(c.s).ok THEN [ok |-> TRUE] ELSE [ok |-> FALSE, es |-> FailKinds(c.s)]
    [] c.k = "make"  -> Built(c)
    [] c.k = "mixed" -> Mixed(c.in)
    [] c.k = "conv"  -> FromJ(c.ty, c.v, <<>>)
    [] c.k = "one"   -> LET e == OneShot(c) IN IF "r" \in DOMAIN e THEN e.r ELSE e

NatConforms(c) ==
  LET o == c.obs
      j == ToJ(c.ty, c.x)
  IN  /\ Agreed(o) /\ Agreed(o.v) /\ Agreed(o.back)
      /\ Denotes(j, o.v, Tab(c))
      /\ o.s = ToText(o.v)
      /\ ConvMatch(FromJ(c.ty, Normalize(o.v), Tab(c)), o.back, Tab32(c))
      \* the round trip itself, when the doubles are exact
      /\ c.exact => o.back = [ok |-> TRUE, v |-> c.x]

Conforms(c) ==
  CASE c.k = "parse" -> LET r == ParseText(c.s) IN
                        /\ Agreed(c.obs)
                        /\ r.ok = c.obs.ok
                        /\ r.ok => Denotes(r.v, c.obs.v, Tab(c))
    [] c.k = "conv"  -> ConvMatch(FromJ(c.ty, c.v, Tab(c)), c.obs, Tab32(c))
    [] c.k = "nat"   -> NatConforms(c)
    [] c.k = "one"   -> OneMatch(c)
    [] c.k = "path"  -> IF "big" \in DOMAIN c THEN Agreed(c.obs) /\ c.obs.ok = ParsePath(c.s).ok
                        ELSE c.obs = ParsePath(c.s)
    [] c.k = "fail"  -> IF ParseText(c.s).ok THEN c.obs = [ok |-> TRUE]
                        ELSE DOMAIN c.obs = {"ok", "e"} /\ ~c.obs.ok /\ c.obs.e \in FailKinds(c.s)
    \* serialized: the canonical text, and the text denotes the value
    [] c.k = "print" -> /\ Agreed(c.obs) /\ c.obs.s = ToText(c.v)
                        /\ LET r == ParseText(c.obs.s)
                           IN r.ok /\ Denotes(r.v, Normalize(c.v), Tab(c))
    [] OTHER -> c.obs = Expected(c)
=============================================================================
