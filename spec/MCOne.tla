-------------------------------- MODULE MCOne -------------------------------
(* One-shot functions: texts, paths, types and values to store *)
EXTENDS MCConv

VARIABLES txt, pth

Texts == LET docs == Few1 \cup Few(Arrs, 12) \cup Few(Nested, 40) \cup Few(Objs, 40) IN
  {ToText(v) : v \in {d \in docs : ~Collides(d)}}
  \cup {<<>>, <<32>>, <<91>>, <<123, 125, 125>>, <<91, 49, 93, 44>>, <<32, 91, 9, 49, 10, 44, 13, 34, 97, 34, 32, 93, 32>>, <<91, 49, 44, 93>>,
        \* {"a":1,"b":[1,{"":2}],"a":{"x":"y","x":null}} with white space; the same cut
        <<123, 32, 34, 97, 34, 58, 49, 44, 34, 98, 34, 58, 91, 49, 44, 123, 34, 34, 58, 50, 125, 93, 44, 32, 34, 97, 34, 9, 58, 32, 123, 34, 120, 34, 58, 34, 121, 34, 44, 34, 120, 34, 58, 110, 117, 108, 108, 125, 32, 125>>,
        <<123, 32, 34, 97, 34, 58, 49, 44, 34, 98, 34, 58, 91, 49, 44, 123, 34, 34, 58, 50, 125, 93>>}
PathTexts == {<<>>, <<97>>, <<35, 48>>, <<35, 49>>, <<35, 52>>, <<97, 46, 97>>, <<97, 46, 120>>, <<98, 46, 35, 49, 46>>, <<97, 46, 35, 48>>, <<35, 48, 46, 35, 48>>, <<35>>, <<35, 120>>, <<97, 46, 35, 45, 49>>,
              <<46>>, <<53>>, <<92, 35, 48>>, <<116, 114, 117, 101>>, <<35, 48, 46, 97>>, <<98, 46, 35, 48>>, <<97, 46, 35, 51>>, <<97, 92, 46, 97>>}
C(c) == [c |-> c]
Wanted == {C("json"), C("str"), C("bool"), C("f64"), [c |-> "int", r |-> "u8"], [c |-> "int", r |-> "i32"], [c |-> "opt", e |-> C("str")], [c |-> "opt", e |-> C("bool")],
           [c |-> "vec", e |-> C("json")], [c |-> "vec", e |-> [c |-> "int", r |-> "u8"]], [c |-> "pairs", k |-> "str", e |-> C("json")],
           [c |-> "map", k |-> "str", e |-> C("json")], [c |-> "map", k |-> "i32", e |-> C("str")]}
Stored == {<<t, x>> : t \in {C("str"), C("json"), [c |-> "opt", e |-> C("bool")], [c |-> "int", r |-> "i32"]}, x \in {[n |-> "none"]}}

InitOne == ty \in {C("get"), C("set"), C("del"), C("decode")} /\ txt \in Texts /\ pth \in PathTexts /\ arg = <<>> /\ st = "typed"
           /\ (ty.c = "decode" => pth = <<>>)
NextOne == /\ st = "typed" /\ st' = "called" /\ UNCHANGED <<ty, txt, pth>>
           /\ CASE ty.c = "del" -> arg' = [k |-> "one", o |-> "del", t |-> txt, s |-> pth]
                [] ty.c \in {"get", "decode"} -> \E t \in Wanted : arg' = [k |-> "one", o |-> ty.c, t |-> txt, s |-> pth, ty |-> t]
                [] OTHER -> \E t \in {C("str"), C("json"), C("bool"), [c |-> "opt", e |-> C("bool")], [c |-> "vec", e |-> [c |-> "opt", e |-> [c |-> "int", r |-> "i32"]]],
                                      [c |-> "pairs", k |-> "str", e |-> C("json")]} :
                              \E x \in Few(Vals(t), 4) : arg' = [k |-> "one", o |-> "set", t |-> txt, s |-> pth, ty |-> t, x |-> x]
SpecOne == InitOne /\ [][NextOne]_<<vars, txt, pth>>

EmitOne == st = "typed" \/ PrintT(ToJson([in |-> arg, exp |-> LET e == OneShot(arg) IN IF "r" \in DOMAIN e THEN Plain(e.r) ELSE e]))

\* J15 on the specification: what comes out is the serialization of what a value operated on would give
OneInv == st = "called" =>
  LET w == ParseText(txt) e == OneShot(arg) p == ParsePath(pth) IN
  /\ ~w.ok => e = Err("Parse")
  /\ w.ok /\ arg.o # "decode" /\ ~p.ok => e = Err("PathSyntaxError")
  /\ w.ok /\ p.ok /\ arg.o \in {"set", "del"} =>
       LET a == Apply(w.v, IF arg.o = "set" THEN [o |-> "set", s |-> pth, x |-> ToJ(arg.ty, arg.x)] ELSE [o |-> "del", s |-> pth])
       IN IF a.r.ok THEN e = Text(ToText(a.v)) /\ ParseText(e.s) = [ok |-> TRUE, v |-> a.v] ELSE e = a.r
=============================================================================
