------------------------------ MODULE MCScope ------------------------------
(***************************************************************************)
(* Command sequences of quote! scopes, well formed, built up command by     *)
(* command along with the run of the scope they describe.                   *)
(***************************************************************************)
EXTENDS JQuote, Json, TLC

CONSTANTS Universe,   \* "cond", "defs", "loop", "calls", "shadow" or "any"
          MaxCmds, Skip

VARIABLES cs, mode    \* mode: "top", "if" (inside a conditional), "else" (after its else), each also inside a loop: "top+for", ...
vars == <<cs, mode>>

P1(a) == Pu(<<a>>)
P2(a, b) == Pu(<<a, b>>)
V(n) == [w |-> "v", n |-> n]
X(e) == [w |-> "x", e |-> e]
Ref(n) == [t |-> "ref", n |-> n]
Call(n, a) == [t |-> "call", n |-> n, a |-> a]
Href(n) == [t |-> "href", n |-> n]
Hcall(n, a) == [t |-> "hcall", n |-> n, a |-> a]
Var(n) == [t |-> "var", n |-> n]
Nest(c) == [t |-> "scope", cs |-> c]

Block(b) == [c |-> "block", b |-> b]
Define(n, b) == [c |-> "define", n |-> n, b |-> b]
Macro(n, a, b) == [c |-> "macro", n |-> n, a |-> a, b |-> b]
Cmd(c) == [c |-> c]

VecT == <<Id("Vec"), P1("<"), Id("u8"), P1(","), Id("i8"), P1(">")>>
Arrow == <<Id("a"), P2("=", ">"), Id("b")>>
FnT == <<Id("f"), Grp("(", <<Id("p"), P1(","), Id("q")>>), P2("-", ">"), Id("r")>>

BlocksCond == {Block(<<Id("A")>>), Block(<<Id("B"), Ref("z")>>)}
BlocksDefs == {Block(<<Ref("z")>>), Block(<<Ref("z"), Grp("(", <<Ref("w"), Id("t"), Ref("z")>>)>>), Block(<<Call("m", <<<<Lit("1")>>, <<Ref("z")>>>>)>>),
               Block(<<Call("m", <<Arrow, VecT>>), Ref("w")>>), Block(<<Call("m0", <<<<>>>>), Call("m1", <<FnT>>)>>),
               Block(<<Grp("[", <<Call("m1", <<<<Call("m1", <<<<Id("q")>>>>), P1(";")>>>>)>>)>>), Block(<<Ref("v"), HashTok, Grp("[", <<Ref("z")>>), Lit("\"#z\"")>>)}
BlocksLoop == {Block(<<Ref("e")>>), Block(<<Ref("e"), P1(","), Ref("z")>>), Block(<<Call("m1", <<<<Ref("e")>>>>), Grp("{", <<Ref("e")>>)>>), Block(<<>>), Block(<<Id("k"), P1(";")>>)}
\* arguments that name definitions, among them those the parameters hide
Args == {<<Ref("p1")>>, <<Ref("p2"), Ref("z")>>}
BlocksCalls == {Block(<<Call("m", <<a, b>>)>>) : a \in Args, b \in Args} \cup {Block(<<Call("m", <<<<Call("m", <<<<Ref("z")>>, <<Ref("p1")>>>>)>>, <<Ref("p2")>>>>), Ref("p1"), Ref("z")>>)}
BlocksShadow == {Block(<<Ref("e"), P1(","), Ref("z")>>), Block(<<Id("k")>>)}
Blocks == CASE Universe = "cond" -> BlocksCond
            [] Universe = "defs" -> BlocksDefs
            [] Universe = "loop" -> BlocksLoop
            [] Universe = "calls" -> BlocksCalls
            [] Universe = "shadow" -> BlocksShadow
            [] OTHER -> BlocksCond \cup BlocksDefs \cup BlocksLoop \cup BlocksCalls

Inner == Nest(<<Define("z", <<Id("in")>>), Block(<<Ref("z"), Ref("w")>>)>>)
DefsCalls == {Define(n, <<Id("d"), Lit(ToString(k))>>) : <<n, k>> \in {<<"p1", 1>>, <<"p2", 2>>, <<"z", 3>>}}
  \cup {Macro("m", ps, b) : ps \in {<<"p1", "p2">>, <<"p2", "p1">>, <<"z", "p1">>, <<"p2", "z">>},
                            b \in {<<Href("p1"), P1("+"), Href("p2"), P1("+"), Href("z")>>}}
DefsShadow == {Define("z", <<Id("dz")>>), Define("e", <<Id("de")>>), [c |-> "undef", n |-> "z"]}
Defs == IF Universe = "calls" THEN DefsCalls ELSE IF Universe = "shadow" THEN DefsShadow ELSE
  (IF Universe = "any" THEN DefsCalls \cup DefsShadow ELSE {}) \cup
  {Define("z", <<Lit("1")>>), Cmd("execute")}
  \cup (IF Universe = "cond" THEN {} ELSE {Define("z", <<Id("a"), Var("v")>>), [c |-> "undef", n |-> "z"], Macro("m1", <<"p1">>, <<Grp("(", <<Ref("p1")>>)>>)})
  \cup (IF Universe \notin {"defs", "any"} THEN {} ELSE
        {Define("w", <<Grp("[", <<Id("y"), P1(","), Var("n")>>)>>), Define("w", <<>>), Define("z", <<Href("w"), Id("q")>>), Define("v", <<Var("v"), Var("v")>>),
         Define("z", <<[t |-> "rep", c |-> V("l"), sep |-> <<P1(",")>>, at |-> "out"]>>), Define("z", <<Id("n"), Inner>>),
         Macro("m", <<"p1", "p2">>, <<Var("p1"), P1("+"), Var("p2")>>), Macro("m", <<"p1", "p2">>, <<Var("p2"), Grp("{", <<Var("p1"), Href("w"), Var("v")>>)>>),
         Macro("m", <<"p2", "z">>, <<Var("p2"), Href("z"), Var("z")>>), Macro("m0", <<>>, <<Id("none")>>),
         Macro("m1", <<"p1">>, <<Hcall("m", <<<<Var("p1")>>, <<Id("two"), Var("p1")>>>>)>>), Macro("m1", <<"z">>, <<Var("z"), P1("-"), Var("z")>>),
         [c |-> "undef", n |-> "w"], [c |-> "include", e |-> "k"], [c |-> "include", e |-> "quote!(#v [#k])"],
         [c |-> "quote", b |-> <<Var("v"), Href("z")>>], [c |-> "quote", b |-> <<Hcall("m1", <<<<Var("n")>>>>), Id("t")>>], [c |-> "quote", b |-> <<Id("o"), Inner, Href("w")>>]})
Conds == {V("b"), X("n > 1")} \cup (IF Universe = "any" THEN {V("c"), X("!b"), X("b && c"), X("o.is_some()")} ELSE {})
Ifs == {[c |-> "if", e |-> e] : e \in Conds} \cup {[c |-> "ifdef", n |-> "z", neg |-> g] : g \in BOOLEAN}
Elifs == {[c |-> "elif", e |-> e] : e \in {V("c"), X("n > 1")} \cup (IF Universe = "any" THEN {X("!b"), X("l.is_empty()")} ELSE {})}
Fors == IF Universe = "shadow" THEN {[c |-> "foreach", x |-> x, e |-> V("l")] : x \in {"e", "z"}} ELSE {[c |-> "foreach", x |-> x, e |-> e] : x \in {"e", "z", "_"}, e \in {V("l")} \cup (IF Universe = "loop" THEN {X("l.iter().rev()"), V("m"), X("o.iter()")} ELSE {X("l.iter().chain(m)")})}

\* no "m0" or "m1" is called with a wrong number of arguments: m0 none, m1 one, m two
Init == cs = <<>> /\ mode = "top"
Put1(c) == cs' = Append(cs, c)
Looping == mode \in {"top+for", "if+for", "else+for"}
AddBlock == (\E c \in Blocks : Put1(c)) /\ UNCHANGED mode
AddDef == ~Looping /\ (\E c \in Defs : Put1(c)) /\ UNCHANGED mode
AddIf == mode = "top" /\ Universe \notin {"defs", "calls", "shadow"} /\ (Universe # "loop" \/ Len(cs) = 0) /\ (\E c \in Ifs : Put1(c)) /\ mode' = "if"
AddElif == mode = "if" /\ \/ (\E c \in Elifs : Put1(c)) /\ UNCHANGED mode
                          \/ Put1(Cmd("else")) /\ mode' = "else"
AddEndif == mode \in {"if", "else"} /\ Put1(Cmd("endif")) /\ mode' = "top"
AddFor == ~Looping /\ Universe \in {"loop", "shadow", "any"} /\ (\E c \in Fors : Put1(c)) /\ mode' = (CASE mode = "top" -> "top+for" [] mode = "if" -> "if+for" [] OTHER -> "else+for")
AddEndfor == Looping /\ Put1(Cmd("endfor")) /\ mode' = (CASE mode = "top+for" -> "top" [] mode = "if+for" -> "if" [] OTHER -> "else")
Ended == cs # <<>> /\ cs[Len(cs)].c = "end"
AddEnd == mode = "top" /\ Universe = "any" /\ cs # <<>> /\ cs[Len(cs)].c = "block" /\ Put1(Cmd("end")) /\ UNCHANGED mode
Next == Len(cs) < MaxCmds /\ ~Ended /\ (AddBlock \/ AddDef \/ AddIf \/ AddElif \/ AddEndif \/ AddFor \/ AddEndfor \/ AddEnd)
Spec == Init /\ [][Next]_vars

Es == {ScopeEnvs[k] : k \in 1..Len(ScopeEnvs)}
Whole == mode = "top" /\ \E k \in 1..Len(cs) : cs[k].c = "block"
At(e) == Run(Scope0(e.n), cs, e)

----------------------------------------------------------------------------
(* Of a conditional that is the whole scope, with blocks alone in its        *)
(* branches: the first branch whose condition holds, and no other.           *)
Marks == SelectSeq([k \in 1..Len(cs) |-> k], LAMBDA k : cs[k].c \in {"if", "ifdef", "elif", "else", "endif"})
OneConditional == /\ mode = "top" /\ Len(Marks) >= 2 /\ Marks[1] = 1 /\ Marks[Len(Marks)] = Len(cs)
                  /\ \A k \in 1..Len(cs) : cs[k].c \in {"if", "elif", "else", "endif", "block"}
                  /\ \A k \in 1..Len(Marks) : cs[Marks[k]].c = "endif" => k = Len(Marks)
Holds(c, e) == c.c = "else" \/ (c.c \in {"if", "elif"} /\ Val(c.e, e))
BranchOut(j) == Concat([k \in 1..(Marks[j + 1] - Marks[j] - 1) |-> Resolve(cs[Marks[j] + k].b, [d \in {} |-> 0])])
FirstBranchInv == OneConditional => \A e \in Es :
  LET hit == {j \in 1..(Len(Marks) - 1) : Holds(cs[Marks[j]], e)}
  IN At(e).out = IF hit = {} THEN <<>> ELSE BranchOut(CHOOSE j \in hit : \A k \in hit : j <= k)
\* a scope's output only grows, command by command, and what was put out stays
GrowInv == cs # <<>> => \A e \in Es : IsPrefix(Run(Scope0(e.n), SubSeq(cs, 1, Len(cs) - 1), e).out, At(e).out)
\* outside of conditionals and loops everything is back in order
OrderInv == mode = "top" => \A e \in Es : At(e).on /\ At(e).taken = <<>> /\ At(e).it = <<>>
\* after an undef, the name stands for nothing
UndefInv == (cs # <<>> /\ cs[Len(cs)].c = "undef" /\ mode = "top") => \A e \in Es : Resolve(<<Ref(cs[Len(cs)].n)>>, At(e).defs) = <<>>
Emit == Whole /\ Len(cs) >= Skip => PrintT(ToJson([cs |-> cs]))
EnvsOut == TLCGet("level") = 1 => PrintT(ToJson([envs |-> ScopeEnvs]))
=============================================================================
