------------------------------- MODULE JQuote -------------------------------
(***************************************************************************)
(* The quote! macro of json_quote: what tokens a template stands for.       *)
(*                                                                          *)
(* Tokens: [t |-> "i", s] identifier, [t |-> "l", s] literal,                *)
(*   [t |-> "p", cs |-> the characters of an operator], [t |-> "f", s]        *)
(*   lifetime, [t |-> "g", d |-> opening delimiter, b |-> tokens]            *)
(* Template items: tokens (the group holds items), and                       *)
(*   [t |-> "hash"]                     ##                                   *)
(*   [t |-> "var", n]                   #n                                   *)
(*   [t |-> "expr", e]                  #(expression)                        *)
(*   [t |-> "bool", c, neg, b]          #(#c: b)+   #(#c: b)-                *)
(*   [t |-> "opt", c]                   #(#c)?                               *)
(*   [t |-> "optb", c, x, b]            #(#c:x b)?                           *)
(*   [t |-> "rep", c, sep, at]          #(#c)*  #(#c),*  #(#c,)*             *)
(*   [t |-> "repb", c, x, sep, b]       #(#c:x b)*  #(#c:x b),*              *)
(*   [t |-> "lit", b]                   #(@literal: b)                       *)
(*   [t |-> "params", ps, b]            #(@params(x, y = e): b)              *)
(*   [t |-> "scope", cs]                #(@scope: commands)                  *)
(*   [t |-> "href", n], [t |-> "hcall", n, a]   ##n, ##(n(a)): left as they   *)
(*                                      are, for a scope to look up          *)
(* where b of lit and params holds tokens and [t |-> "ref", n] for #n, and     *)
(* where c is [w |-> "v", n] (a variable) or [w |-> "x", e] (an expression). *)
(* An environment maps the variables to values: token sequences, booleans,  *)
(* options (<<>> or <<value>>) and sequences.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Id(s) == [t |-> "i", s |-> s]
Lit(s) == [t |-> "l", s |-> s]
Pu(cs) == [t |-> "p", cs |-> cs]
Life(s) == [t |-> "f", s |-> s]
Grp(d, b) == [t |-> "g", d |-> d, b |-> b]
HashTok == Pu(<<"#">>)

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

NumText(n) == IF n < 10 THEN <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[n + 1]
              ELSE <<"10", "11", "12", "13", "14", "15", "16", "17", "18", "19", "20", "21">>[n - 9]
\* an integer: a negative one is two tokens
NumToks(n) == IF n < 0 THEN <<Pu(<<"-">>), Lit(NumText(-n))>> ELSE <<Lit(NumText(n))>>

\* the expressions known to the harness, by their Rust text
ExprVal(e, env) ==
  CASE e = "v.clone()" -> env.v
    [] e = "n + 1" -> NumToks(env.n + 1)
    [] e = "l.len()" -> NumToks(Len(env.l))
    [] e = "[s, s].join(\" \")" -> env.s \o env.s
    [] e = "if b { 1 } else { 2 }" -> NumToks(IF env.b THEN 1 ELSE 2)
    [] e = "{ let a = n; a }" -> NumToks(env.n)
    [] e = "quote!(#v [#k])" -> env.v \o <<Grp("[", env.k)>>
    [] e = "!b" -> ~env.b
    [] e = "b && c" -> env.b /\ env.c
    [] e = "b || c" -> env.b \/ env.c
    [] e = "l.is_empty()" -> env.l = <<>>
    [] e = "n > 1" -> env.n > 1
    [] e = "o.is_some()" -> env.o # <<>>
    [] e = "o.or(p)" -> IF env.o # <<>> THEN env.o ELSE env.p
    [] e = "l.first()" -> IF env.l = <<>> THEN <<>> ELSE <<env.l[1]>>
    [] e = "if c { o } else { None }" -> IF env.c THEN env.o ELSE <<>>
    [] e = "l.iter().rev()" -> Reverse(env.l)
    [] e = "l.iter().chain(m)" -> env.l \o env.m
    [] e = "l.iter().skip(1)" -> IF env.l = <<>> THEN <<>> ELSE Tail(env.l)
    [] e = "ll.concat()" -> Concat(env.ll)
    [] e = "o.iter()" -> env.o
    [] e = "x" -> env.x
    [] e = "x.to_string()" -> env.x
    [] e = "x.iter().rev()" -> Reverse(env.x)

Val(c, env) == IF c.w = "x" THEN ExprVal(c.e, env) ELSE env[c.n]
Bind(env, x, v) == IF x = "_" THEN env ELSE [k \in DOMAIN env \cup {x} |-> IF k = x THEN v ELSE env[k]]

\* the tokens of a plain variable
VarTokens(n, env) == IF n = "n" THEN NumToks(env.n) ELSE env[n]

----------------------------------------------------------------------------
(* #name and #(name(arguments)) inside blocks, against the definitions of a *)
(* scope: [d |-> "tok", b] or [d |-> "mac", a |-> parameters, b].  A name    *)
(* without definition stands for nothing.  What a definition stands for is   *)
(* looked at again.                                                          *)
(*   [t |-> "ref", n]   [t |-> "call", n, a |-> Seq of token sequences]      *)
RECURSIVE Resolve(_, _)
Resolve(ts, defs) ==
  LET one(i) ==
    CASE i.t = "g" -> <<[i EXCEPT !.b = Resolve(i.b, defs)]>>
      [] i.t = "ref" -> IF i.n \notin DOMAIN defs \/ defs[i.n].d # "tok" THEN <<>> ELSE Resolve(defs[i.n].b, defs)
      [] i.t = "call" ->
           IF i.n \notin DOMAIN defs \/ defs[i.n].d # "mac" THEN <<>>
           ELSE LET m == defs[i.n]
                    inner == [k \in DOMAIN defs \cup ToSet(m.a) |->
                                IF k \in ToSet(m.a) THEN [d |-> "tok", b |-> Resolve(i.a[CHOOSE j \in 1..Len(m.a) : m.a[j] = k], defs)] ELSE defs[k]]
                IN Resolve(m.b, inner)
      [] OTHER -> <<i>>
  IN Concat([k \in 1..Len(ts) |-> one(ts[k])])
----------------------------------------------------------------------------
\* values of parameters as definitions
ParamDefs(ps, env) == [k \in {ps[j].n : j \in 1..Len(ps)} |->
                         LET q == ps[CHOOSE j \in 1..Len(ps) : ps[j].n = k]
                         IN [d |-> "tok", b |-> IF "e" \in DOMAIN q THEN ExprVal(q.e, env) ELSE VarTokens(k, env)]]

RECURSIVE ScopeTokens(_, _)
RECURSIVE Expand(_, _)
Expand(ts, env) ==
  LET one(i) ==
    CASE i.t = "g" -> <<[i EXCEPT !.b = Expand(i.b, env)]>>
      [] i.t = "hash" -> <<HashTok>>
      [] i.t = "var" -> VarTokens(i.n, env)
      [] i.t = "expr" -> ExprVal(i.e, env)
      [] i.t = "bool" -> IF Val(i.c, env) # i.neg THEN Expand(i.b, env) ELSE <<>>
      [] i.t = "opt" -> Concat(Val(i.c, env))
      [] i.t = "optb" -> LET o == Val(i.c, env) IN IF o = <<>> THEN <<>> ELSE Expand(i.b, Bind(env, i.x, o[1]))
      [] i.t = "href" -> <<[t |-> "ref", n |-> i.n]>>
      [] i.t = "hcall" -> <<[t |-> "call", n |-> i.n, a |-> [j \in 1..Len(i.a) |-> Expand(i.a[j], env)]]>>
      [] i.t = "scope" -> ScopeTokens(i.cs, env)
      [] i.t = "lit" -> i.b
      [] i.t = "params" -> Resolve(i.b, ParamDefs(i.ps, env))
      [] i.t = "rep" -> LET s == Val(i.c, env) IN
                        Concat([k \in 1..Len(s) |-> (IF i.at = "out" /\ k > 1 THEN i.sep ELSE <<>>) \o s[k]
                                                    \o (IF i.at = "in" THEN i.sep ELSE <<>>)])
      [] i.t = "repb" -> LET s == Val(i.c, env) IN
                         Concat([k \in 1..Len(s) |-> (IF k > 1 THEN i.sep ELSE <<>>) \o Expand(i.b, Bind(env, i.x, s[k]))])
      [] OTHER -> <<i>>
  IN Concat([k \in 1..Len(ts) |-> one(ts[k])])

----------------------------------------------------------------------------
(* The environments every template is expanded in.                          *)
S_(a) == <<Id(a)>>
Envs == <<
  [v |-> S_("foo"), s |-> <<Lit("\"str\"")>>, k |-> <<Id("a"), Pu(<<":">>), Id("i32")>>, n |-> 0, b |-> TRUE, c |-> FALSE,
   o |-> <<>>, p |-> <<S_("pp")>>, l |-> <<>>, m |-> <<S_("m1")>>, ll |-> <<>>],
  [v |-> <<Id("Vec"), Pu(<<"<">>), Id("u8"), Pu(<<">">>)>>, s |-> S_("r#type"), k |-> <<>>, n |-> 7, b |-> FALSE, c |-> TRUE,
   o |-> <<S_("oo")>>, p |-> <<>>, l |-> <<S_("e1")>>, m |-> <<>>, ll |-> <<<<>>>>],
  [v |-> <<Id("a"), Pu(<<"=", "=">>), Lit("'c'")>>, s |-> <<Grp("(", <<Id("q"), Pu(<<",">>), Grp("[", <<>>)>>)>>, k |-> <<Grp("{", <<Lit("1.5")>>), Pu(<<";">>)>>,
   n |-> -3, b |-> TRUE, c |-> TRUE, o |-> <<<<Id("o1"), Pu(<<"-", ">">>), Id("o2")>>>>, p |-> <<S_("pp")>>,
   l |-> <<S_("e1"), <<Pu(<<"&">>), Life("a"), Id("e2")>>, S_("e3")>>, m |-> <<S_("m1"), S_("m2")>>, ll |-> <<<<S_("f1"), S_("f2")>>, <<>>, <<S_("g1")>>>>],
  [v |-> <<>>, s |-> <<>>, k |-> <<Pu(<<"#">>), Id("v")>>, n |-> 12, b |-> FALSE, c |-> FALSE, o |-> <<<<>>>>, p |-> <<<<>>>>,
   l |-> <<<<>>, S_("e1")>>, m |-> <<<<>>>>, ll |-> <<<<<<>>, S_("h")>>>>],
  [v |-> <<Life("static")>>, s |-> <<Pu(<<"#">>), Id("s"), Pu(<<"#">>), Grp("(", <<Pu(<<"#">>), Id("l")>>), Pu(<<"*">>)>>, k |-> S_("kk"), n |-> 1, b |-> TRUE, c |-> FALSE,
   o |-> <<<<Grp("{", <<>>)>>>>, p |-> <<>>, l |-> <<S_("e1"), S_("e1")>>, m |-> <<<<Lit("9u8")>>, S_("m2"), S_("m3")>>, ll |-> <<<<S_("f1")>>, <<S_("f2"), S_("f3"), S_("f4")>>>>]
  >>
\* with scopes, values hold no "#": what a definition stands for is looked at again
ScopeEnvs == [j \in 1..Len(Envs) |-> [Envs[j] EXCEPT !.k = IF j = 4 THEN S_("kk") ELSE @, !.s = IF j = 5 THEN S_("ss") ELSE @]]

----------------------------------------------------------------------------
(* A scope: commands run in order.  The state of a run is                    *)
(*   out    the tokens so far                                                *)
(*   defs   the definitions in force                                         *)
(*   on     whether the current branch is taken                              *)
(*   taken  inside a conditional, <<whether a branch has been taken>>        *)
(*   it     inside a loop, <<[x, s]>>                                        *)
(*   n      the counter that executions change                               *)
(*   ev     the expressions evaluated so far                                 *)
(*   open   whether a loop was passed over: what it evaluates is not said    *)
Scope0(n) == [out |-> <<>>, defs |-> [k \in {} |-> 0], on |-> TRUE, taken |-> <<>>, it |-> <<>>, n |-> n, ev |-> <<>>, open |-> FALSE]
SetDef(defs, k, v) == [j \in DOMAIN defs \cup {k} |-> IF j = k THEN v ELSE defs[j]]
Undef(defs, k) == [j \in DOMAIN defs \ {k} |-> defs[j]]
Put(st, ts) == IF st.on THEN [st EXCEPT !.out = @ \o ts] ELSE st
Branch(st, c) ==
  LET now == ~st.taken[1] /\ c IN [st EXCEPT !.on = now, !.taken = <<st.taken[1] \/ now>>]

RECURSIVE Loop(_, _, _)
Loop(st, b, s) ==
  IF s = <<>> THEN <<>>
  ELSE Resolve(b, IF st.it[1].x = "_" THEN st.defs ELSE SetDef(st.defs, st.it[1].x, [d |-> "tok", b |-> Head(s)])) \o Loop(st, b, Tail(s))

\* env is the environment of the surrounding code; its n is the counter
Run1(st, c, env) ==
  LET E == [env EXCEPT !.n = st.n] IN
  CASE c.c = "block" -> IF st.it = <<>> THEN Put(st, Resolve(c.b, st.defs)) ELSE Put(st, Loop(st, c.b, st.it[1].s))
    [] c.c = "define" -> IF st.on THEN [st EXCEPT !.defs = SetDef(@, c.n, [d |-> "tok", b |-> Expand(c.b, E)])] ELSE st
    [] c.c = "macro" -> IF st.on THEN [st EXCEPT !.defs = SetDef(@, c.n, [d |-> "mac", a |-> c.a,
                                             b |-> Expand(c.b, [k \in DOMAIN E \cup ToSet(c.a) |-> IF k \in ToSet(c.a) THEN <<[t |-> "ref", n |-> k]>> ELSE E[k]])])]
                        ELSE st
    [] c.c = "undef" -> IF st.on THEN [st EXCEPT !.defs = Undef(@, c.n)] ELSE st
    [] c.c = "include" -> Put(st, Resolve(IF c.e = "k" THEN E.k ELSE ExprVal(c.e, E), st.defs))
    [] c.c = "quote" -> Put(st, Resolve(Expand(c.b, E), st.defs))
    [] c.c = "execute" -> IF st.on THEN [st EXCEPT !.n = @ + 1] ELSE st
    [] c.c = "ifdef" -> Branch([st EXCEPT !.taken = <<FALSE>>], (c.n \in DOMAIN st.defs /\ st.defs[c.n].d = "tok") # c.neg)
    [] c.c = "if" -> Branch([st EXCEPT !.taken = <<FALSE>>], Val(c.e, E))
    [] c.c = "elif" -> Branch(st, Val(c.e, E))
    [] c.c = "else" -> Branch(st, TRUE)
    [] c.c = "endif" -> [st EXCEPT !.on = TRUE, !.taken = <<>>]
    [] c.c = "foreach" -> [st EXCEPT !.it = <<[x |-> c.x, s |-> Val(c.e, E)]>>]
    [] c.c = "endfor" -> [st EXCEPT !.it = <<>>]
    [] c.c = "end" -> st

----------------------------------------------------------------------------
(* What is evaluated, by its Rust text: an expression once each time the     *)
(* part of the template it is in is reached, in the order of the template.   *)
EC(c) == IF c.w = "x" THEN <<c.e>> ELSE <<>>
RECURSIVE Evals(_, _)
RECURSIVE ScopeRun(_, _)
Evals(ts, env) ==
  LET one(i) ==
    CASE i.t = "g" -> Evals(i.b, env)
      [] i.t = "expr" -> <<i.e>>
      [] i.t = "bool" -> EC(i.c) \o (IF Val(i.c, env) # i.neg THEN Evals(i.b, env) ELSE <<>>)
      [] i.t \in {"opt", "rep"} -> EC(i.c)
      [] i.t = "optb" -> LET o == Val(i.c, env) IN EC(i.c) \o (IF o = <<>> THEN <<>> ELSE Evals(i.b, Bind(env, i.x, o[1])))
      [] i.t = "repb" -> LET s == Val(i.c, env) IN EC(i.c) \o Concat([k \in 1..Len(s) |-> Evals(i.b, Bind(env, i.x, s[k]))])
      [] i.t = "hcall" -> Concat([j \in 1..Len(i.a) |-> Evals(i.a[j], env)])
      [] i.t = "params" -> Concat([j \in 1..Len(i.ps) |-> IF "e" \in DOMAIN i.ps[j] THEN <<i.ps[j].e>> ELSE <<>>])
      [] i.t = "scope" -> ScopeRun(i.cs, env).ev
      [] OTHER -> <<>>
  IN Concat([k \in 1..Len(ts) |-> one(ts[k])])

EvOf(st, c, env) ==
  LET E == [env EXCEPT !.n = st.n] IN
  CASE c.c \in {"define", "quote"} -> IF st.on THEN Evals(c.b, E) ELSE <<>>
    [] c.c = "macro" -> IF st.on THEN Evals(c.b, [k \in DOMAIN E \cup ToSet(c.a) |-> IF k \in ToSet(c.a) THEN <<[t |-> "ref", n |-> k]>> ELSE E[k]]) ELSE <<>>
    [] c.c = "include" -> IF st.on /\ c.e # "k" THEN <<c.e>> ELSE <<>>
    [] c.c \in {"if", "foreach"} -> EC(c.e)
    [] c.c = "elif" -> IF st.taken[1] THEN <<>> ELSE EC(c.e)
    [] OTHER -> <<>>

RECURSIVE Run(_, _, _)
Run(st, cs, env) ==
  IF cs = <<>> THEN st
  ELSE LET c == Head(cs)
           next == Run1(st, c, env)
       IN Run([next EXCEPT !.ev = @ \o EvOf(st, c, env), !.open = @ \/ (c.c = "foreach" /\ ~st.on)], Tail(cs), env)
ScopeRun(cs, env) == Run(Scope0(env.n), cs, env)
ScopeTokens(cs, env) == ScopeRun(cs, env).out

----------------------------------------------------------------------------
(* Flat tokens as the compiler reports them: an operator of several          *)
(* characters is several punctuation characters, all but the last joint      *)
RECURSIVE Flat(_)
Flat(ts) ==
  Concat([k \in 1..Len(ts) |->
    CASE ts[k].t = "p" -> [j \in 1..Len(ts[k].cs) |-> [t |-> "p", s |-> ts[k].cs[j], j |-> j < Len(ts[k].cs)]]
      [] ts[k].t = "f" -> <<[t |-> "p", s |-> "'", j |-> TRUE], Id(ts[k].s)>>
      [] ts[k].t = "g" -> <<[t |-> "g", d |-> ts[k].d, b |-> Flat(ts[k].b)]>>
      [] ts[k].t = "ref" -> <<[t |-> "p", s |-> "#", j |-> FALSE], Id(ts[k].n)>>
      [] OTHER -> <<ts[k]>>])

RECURSIVE SameTokens(_, _)
SameTokens(exp, obs) ==
  /\ Len(exp) = Len(obs)
  /\ \A k \in 1..Len(exp) :
       /\ exp[k].t = obs[k].t
       /\ CASE exp[k].t = "p" -> exp[k].s = obs[k].s /\ exp[k].j = obs[k].j
            [] exp[k].t = "g" -> exp[k].d = obs[k].d /\ SameTokens(exp[k].b, obs[k].b)
            [] OTHER -> exp[k].s = obs[k].s
=============================================================================
