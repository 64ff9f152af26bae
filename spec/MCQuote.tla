------------------------------ MODULE MCQuote ------------------------------
(***************************************************************************)
(* Templates of quote!, built up item by item.  A state is the stack of the *)
(* parts that are open: every prefix of a template in writing order.        *)
(***************************************************************************)
EXTENDS JQuote, Json, TLC

CONSTANTS Universe,  \* "tokens", "holes", "mixed" or "any"
          MaxItems,  \* items and parts in a template
          MaxDepth,  \* parts inside parts
          Skip       \* emit only templates of at least this size

VARIABLES stack, size
vars == <<stack, size>>

P1(a) == Pu(<<a>>)
P2(a, b) == Pu(<<a, b>>)
P3(a, b, c) == Pu(<<a, b, c>>)
Ops == {P1(a) : a \in {"=", "<", ">", "!", "~", "+", "-", "*", "/", "%", "^", "&", "|", "@", ".", ",", ";", ":", "?"}}
       \cup {P2("-", ">"), P2("=", ">"), P2("<", "="), P2(">", "="), P2("!", "="), P2("&", "&"), P2("|", "|"), P2("=", "="), P2("+", "="), P2("-", "="), P2("*", "="),
             P2("/", "="), P2("%", "="), P2("&", "="), P2("^", "="), P2("|", "="), P2(">", ">"), P2("<", "<"), P2(".", "."), P2(":", ":"), P2("<", "-")}
       \cup {P3(">", ">", "="), P3("<", "<", "="), P3(".", ".", "."), P3(".", ".", "=")}
Idents == {Id(a) : a \in {"a", "fn", "self", "Self", "crate", "true", "r#type", "_", "_x", "aB9", "async", "v"}}
Lits == {Lit(a) : a \in {"1", "0x1F", "1_000u64", "1.5", "2e10", "\"q\"", "\"a \\\"b\\\" # \\n\"", "'c'", "'\\''", "b\"by\"", "b'x'", "r#\"raw \"x\" \"#", "\"\""}}
Lifes == {Life("a"), Life("static"), Life("_")}

V(n) == [w |-> "v", n |-> n]
X(e) == [w |-> "x", e |-> e]
Comma == <<P1(",")>>
Hash == [t |-> "hash"]
Var(n) == [t |-> "var", n |-> n]
Expr(e) == [t |-> "expr", e |-> e]
OptI(c) == [t |-> "opt", c |-> c]
RepI(c, sep, at) == [t |-> "rep", c |-> c, sep |-> sep, at |-> at]

\* what is bound: <<name, type>>, the last one first; type "str" or "list"
Bound(x, bd) == IF \E k \in 1..Len(bd) : bd[k][1] = x THEN bd[CHOOSE k \in 1..Len(bd) : bd[k][1] = x /\ \A j \in 1..(k - 1) : bd[j][1] # x][2] ELSE "no"
OfType(bd, ty) == {x \in {"x", "y"} : Bound(x, bd) = ty}

Seps == {Comma, <<P1(";")>>, <<P1("|")>>, <<P2("&", "&")>>, <<P2("=", ">")>>, <<Id("and")>>, <<Lit("\"s\"")>>, <<Grp("(", <<Id("z")>>)>>, <<P1("=")>>, <<P1(".")>>, <<P1("<")>>, <<P2(":", ":")>>, <<Id("x")>>}
Rich == Universe \in {"tokens", "holes"}
\* separators of the smaller universes
SepsHere == IF Universe = "holes" THEN Seps ELSE IF Universe = "any" THEN {Comma, <<P1(";")>>, <<P2("&", "&")>>, <<Grp("(", <<Id("z")>>)>>} ELSE {Comma}
Exprs == {"v.clone()", "n + 1", "l.len()", "[s, s].join(\" \")", "if b { 1 } else { 2 }", "{ let a = n; a }", "quote!(#v [#k])"}
Bools == {V("b"), V("c")} \cup (IF Universe = "mixed" THEN {} ELSE {X(e) : e \in {"!b", "b && c", "b || c", "l.is_empty()", "n > 1", "o.is_some()"}})
Opts == {V("o")} \cup (IF Universe = "mixed" THEN {X("o.or(p)")} ELSE {V("p"), X("o.or(p)"), X("l.first()"), X("if c { o } else { None }")})
Lists(bd) == {V("l")} \cup {V(x) : x \in OfType(bd, "list")}
             \cup (IF Universe = "mixed" THEN {X("l.iter().skip(1)")} ELSE {V("m"), X("l.iter().rev()"), X("l.iter().chain(m)"), X("l.iter().skip(1)"), X("ll.concat()"), X("o.iter()")}
                                                                          \cup (IF Bound("x", bd) = "list" THEN {X("x.iter().rev()")} ELSE {}))

\* inside #(@literal: ..) and #(@params(..): ..), #name is not looked up in the code around
Raw == \E j \in 1..Len(stack) : stack[j].h.h \in {"lit", "params"}
Ref(n) == [t |-> "ref", n |-> n]
RawAtoms == {Id("a"), Lit("1"), Lit("\"#v\""), P2("=", ">"), P1(","), P1("*"), Life("a"), Ref("v"), Ref("n"), Ref("z"), Ref("x")}
Param(n) == [n |-> n]
ParamE(n, e) == [n |-> n, e |-> e]
Params(bd) == {<<Param("v")>>, <<ParamE("v", "n + 1")>>, <<ParamE("z", "v.clone()"), Param("n")>>, <<Param("n"), ParamE("z", "if b { 1 } else { 2 }")>>}
              \cup (IF Bound("x", bd) = "str" THEN {<<Param("x")>>, <<Param("v"), Param("x")>>} ELSE {})
Atoms(bd) ==
  IF Raw THEN RawAtoms ELSE
  CASE Universe = "tokens" -> Ops \cup Idents \cup Lits \cup Lifes \cup {Hash}
    [] Universe = "holes" ->
         {Var(n) : n \in {"v", "s", "k", "n"}} \cup {Expr(e) : e \in Exprs} \cup {OptI(c) : c \in Opts}
         \cup {RepI(c, <<>>, "out") : c \in Lists(bd)} \cup {RepI(V("l"), sep, at) : sep \in Seps, at \in {"out", "in"}} \cup {RepI(c, Comma, at) : c \in Lists(bd), at \in {"out", "in"}}
         \cup {Var(x) : x \in OfType(bd, "str")} \cup (IF Bound("x", bd) = "str" THEN {Expr("x"), Expr("x.to_string()")} ELSE {})
         \cup {Id("a")}
    [] Universe = "mixed" ->
         {Id("a"), Lit("1"), P2("-", ">"), P1(";"), P1("!"), Hash, Var("v"), Expr("n + 1"), OptI(V("o")), RepI(V("l"), Comma, "out"), RepI(V("l"), <<>>, "out")}
         \cup {Var(x) : x \in OfType(bd, "str")} \cup {RepI(V(x), Comma, "out") : x \in OfType(bd, "list")}
    [] OTHER ->
         {P1("*"), P1("+"), P1("-"), P1("?"), P1(","), P1(";"), P1("!"), P2("=", ">"), P2(":", ":"), P1(":"), Id("a"), Id("x"), Lit("1"), Life("a"), Hash}
         \cup {Var(n) : n \in {"v", "s", "k", "n"}} \cup {Expr(e) : e \in Exprs} \cup {OptI(c) : c \in Opts}
         \cup {RepI(c, sep, at) : c \in Lists(bd), sep \in SepsHere \cup {<<>>}, at \in {"out"}} \cup {RepI(c, sep, "in") : c \in Lists(bd), sep \in SepsHere}
         \cup {Var(x) : x \in OfType(bd, "str")} \cup (IF Bound("x", bd) = "str" THEN {Expr("x"), Expr("x.to_string()")} ELSE {})

Dels == {"(", "[", "{"}
Groups == {[h |-> "g", d |-> d] : d \in Dels}
NewVars(bd) == IF Universe = "mixed" THEN {"x"} ELSE {"x", "y", "_"}
Heads(bd) ==
  IF Universe = "tokens" \/ Raw THEN Groups
  ELSE Groups \cup {[h |-> "lit"]} \cup {[h |-> "params", ps |-> q] : q \in Params(bd)}
       \cup {[h |-> "bool", c |-> c, neg |-> n] : c \in Bools, n \in BOOLEAN}
       \cup {[h |-> "optb", c |-> c, x |-> x, ty |-> "str"] : c \in Opts, x \in NewVars(bd)}
       \cup {[h |-> "repb", c |-> c, x |-> x, sep |-> sep, ty |-> "str"] : c \in Lists(bd), x \in NewVars(bd), sep \in {<<>>, Comma}}
       \cup {[h |-> "repb", c |-> V("l"), x |-> "x", sep |-> sep, ty |-> "str"] : sep \in SepsHere}
       \cup {[h |-> "repb", c |-> V("ll"), x |-> "x", sep |-> sep, ty |-> "list"] : sep \in SepsHere \cup {<<>>}}

Top == stack[Len(stack)]
Close1(f) ==
  CASE f.h.h = "g" -> [t |-> "g", d |-> f.h.d, b |-> f.b]
    [] f.h.h = "lit" -> [t |-> "lit", b |-> f.b]
    [] f.h.h = "params" -> [t |-> "params", ps |-> f.h.ps, b |-> f.b]
    [] f.h.h = "bool" -> [t |-> "bool", c |-> f.h.c, neg |-> f.h.neg, b |-> f.b]
    [] f.h.h = "optb" -> [t |-> "optb", c |-> f.h.c, x |-> f.h.x, b |-> f.b]
    [] f.h.h = "repb" -> [t |-> "repb", c |-> f.h.c, x |-> f.h.x, sep |-> f.h.sep, b |-> f.b]
Push(f, i) == [f EXCEPT !.b = Append(@, i)]
Init == stack = <<[h |-> [h |-> "top"], b |-> <<>>, bd |-> <<>>]>> /\ size = 0
Add == /\ size < MaxItems
       /\ \E i \in Atoms(Top.bd) : stack' = [stack EXCEPT ![Len(stack)] = Push(@, i)]
       /\ size' = size + 1
Open == /\ size < MaxItems /\ Len(stack) <= MaxDepth
        /\ \E h \in Heads(Top.bd) :
             stack' = Append(stack, [h |-> h, b |-> <<>>, bd |-> IF h.h \in {"optb", "repb"} /\ h.x # "_" THEN <<<<h.x, h.ty>>>> \o Top.bd ELSE Top.bd])
        /\ size' = size + 1
Close == /\ Len(stack) > 1 /\ (Top.b # <<>> \/ Top.h.h = "g")
         /\ stack' = [SubSeq(stack, 1, Len(stack) - 1) EXCEPT ![Len(stack) - 1] = Push(@, Close1(Top))]
         /\ UNCHANGED size
Next == Add \/ Open \/ Close
Spec == Init /\ [][Next]_vars

Tmpl == stack[1].b
Whole == Len(stack) = 1 /\ Tmpl # <<>>
Es == {Envs[k] : k \in 1..Len(Envs)}
\* expansion goes item by item, each on its own
HomInv == Whole => \A e \in Es : \A k \in 0..Len(Tmpl) : Expand(Tmpl, e) = Expand(SubSeq(Tmpl, 1, k), e) \o Expand(SubSeq(Tmpl, k + 1, Len(Tmpl)), e)
\* a template without holes stands for itself
RECURSIVE Plain(_)
Plain(ts) == \A k \in 1..Len(ts) : ts[k].t \in {"i", "l", "p", "f"} \/ (ts[k].t = "g" /\ Plain(ts[k].b))
PlainInv == Whole /\ Plain(Tmpl) => \A e \in Es : Expand(Tmpl, e) = Tmpl
RECURSIVE NoHoles(_)
NoHoles(ts) == Plain(ts)
RECURSIVE RefsOut(_)
RefsOut(ts) == [k \in 1..Len(ts) |-> IF ts[k].t = "ref" THEN Id(ts[k].n) ELSE IF ts[k].t = "g" THEN [ts[k] EXCEPT !.b = RefsOut(ts[k].b)] ELSE ts[k]]
ClosedInv == Whole => \A e \in Es : NoHoles(RefsOut(Expand(Tmpl, e)))
Emit == Whole /\ size >= Skip => PrintT(ToJson([t |-> Tmpl]))
EnvsOut == TLCGet("level") = 1 => PrintT(ToJson([envs |-> Envs]))
=============================================================================
