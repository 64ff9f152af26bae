------------------------------- MODULE MCItem -------------------------------
(***************************************************************************)
(* Items of the supported grammar: a plain item, to which one part at a     *)
(* time is added.                                                           *)
(***************************************************************************)
EXTENDS JItem, Json, TLC

CONSTANTS Universe,   \* "attrs", "types", "generics", "shapes" or "any"
          MaxParts, Skip

VARIABLES item, n
vars == <<item, n>>

P1(a) == Pu(<<a>>)
P2(a, b) == Pu(<<a, b>>)
----------------------------------------------------------------------------
LitOf(lk, raw, neg, val) == [lk |-> lk, raw |-> raw, neg |-> neg, val |-> val]
StrLits == {LitOf("str", "\"v\"", FALSE, "v"), LitOf("str", "\"\"", FALSE, ""), LitOf("str", "\"a \\\" b\\\"\"", FALSE, "a \\\" b\\\""), LitOf("str", "\"# [ ] , = (\"", FALSE, "# [ ] , = ("),
            LitOf("str", "r\"x\\\"", FALSE, "x\\"), LitOf("str", "r#\"q\"q\"#", FALSE, "q\"q"), LitOf("str", "r##\"\"#\"##", FALSE, "\"#"), LitOf("str", "\"\\\"\"", FALSE, "\\\"")}
ByteLits == {LitOf("bytes", "b'x'", FALSE, "x"), LitOf("bytes", "b'\\''", FALSE, "\\'"), LitOf("bytes", "b\"by\"", FALSE, "by"), LitOf("bytes", "br\"r\"", FALSE, "r"), LitOf("bytes", "br#\"r\"r\"#", FALSE, "r\"r"), LitOf("bytes", "b\"\"", FALSE, "")}
NumLits == {LitOf("int", "0", FALSE, "0"), LitOf("int", "5", TRUE, "-5"), LitOf("int", "12u8", FALSE, "12"), LitOf("int", "7i128", TRUE, "-7"), LitOf("int", "2147483647", FALSE, "2147483647"), LitOf("int", "1usize", FALSE, "1"), LitOf("int", "88u8", FALSE, "88"),
            LitOf("int", "2147483648", TRUE, "-2147483648"), LitOf("int", "2147483648i32", TRUE, "-2147483648"), LitOf("int", "16i16", FALSE, "16"), LitOf("int", "16u16", TRUE, "-16"), LitOf("int", "32u32", FALSE, "32"), LitOf("int", "32i32", TRUE, "-32"),
            LitOf("int", "64u64", FALSE, "64"), LitOf("int", "64i64", TRUE, "-64"), LitOf("int", "128u128", FALSE, "128"), LitOf("int", "8i8", TRUE, "-8"), LitOf("int", "10isize", FALSE, "10"), LitOf("int", "10isize", TRUE, "-10"),
            LitOf("float", "0.5f32", TRUE, "-0.5"), LitOf("float", "64.5f64", FALSE, "64.5"), LitOf("float", "3000000000.5", FALSE, "3000000000.5"),
            LitOf("float", "1.5", FALSE, "1.5"), LitOf("float", "2.25f64", TRUE, "-2.25"), LitOf("float", "3f32", FALSE, "3")}
BoolLits == {LitOf("bool", "true", FALSE, "true"), LitOf("bool", "false", FALSE, "false")}
Lits == StrLits \cup ByteLits \cup NumLits \cup BoolLits
SomeLits == {LitOf("str", "\"v\"", FALSE, "v"), LitOf("int", "5", TRUE, "-5"), LitOf("bool", "true", FALSE, "true")}
IdA(s) == [k |-> "id", s |-> s]
LitA(l) == [k |-> "lit", lit |-> l]
PairA(s, eq, l) == [k |-> "pair", s |-> s, eq |-> eq, lit |-> l]
GrpA(s, b, tr) == [k |-> "grp", s |-> s, b |-> b, tr |-> tr]
Flat1 == {IdA("ignore"), IdA("r#type"), LitA(LitOf("str", "\"v\"", FALSE, "v")), LitA(LitOf("int", "5", TRUE, "-5")), PairA("key", "=", LitOf("str", "\"v\"", FALSE, "v")), PairA("n", ":", LitOf("float", "2.25f64", TRUE, "-2.25"))}
Groups1 == {GrpA("derive", <<>>, FALSE), GrpA("derive", <<IdA("A"), IdA("B")>>, TRUE), GrpA("cfg", <<GrpA("not", <<PairA("feature", "=", LitOf("str", "\"f\"", FALSE, "f"))>>, FALSE), IdA("unix")>>, FALSE),
            GrpA("g", <<PairA("k", "=", LitOf("int", "5", TRUE, "-5")), LitA(LitOf("bool", "false", FALSE, "false")), PairA("k2", ":", LitOf("str", "\"\"", FALSE, ""))>>, FALSE)}
AttrPool ==
  CASE Universe = "attrs" -> {IdA("ignore"), IdA("r#type"), IdA("_x")} \cup {LitA(l) : l \in Lits} \cup {PairA("key", eq, l) : eq \in {"=", ":"}, l \in Lits} \cup Groups1
                             \cup {GrpA("g", <<x, y>>, t) : x \in Flat1, y \in Flat1, t \in BOOLEAN} \cup {GrpA("h", <<x>>, FALSE) : x \in Groups1}
    [] Universe = "shapes" -> {PairA("doc", "=", LitOf("str", "r\" text\"", FALSE, " text")), GrpA("derive", <<IdA("A"), IdA("B")>>, TRUE)}
    [] Universe = "any" -> Flat1 \cup Groups1 \cup {LitA(l) : l \in NumLits}
    [] OTHER -> {}

----------------------------------------------------------------------------
NameT(pre, s, g) == [k |-> "name", pre |-> pre, s |-> s, g |-> g, tr |-> FALSE]
N(s) == NameT(<<>>, s, <<>>)
G(s, g) == NameT(<<>>, s, g)
Raw(ts) == [k |-> "raw", ts |-> ts]
LtT(s) == [k |-> "lt", s |-> s]
RefT(lt, mut, ty) == [k |-> "ref", lt |-> lt, mut |-> mut, ty |-> ty]
Std(m) == <<<<Id("std")>>, <<Id(m)>>>>
Tuple0 == Raw(<<Grp("(", <<>>)>>)
Tuple2 == Raw(<<Grp("(", <<Id("u8"), CommaT, Id("T"), P1("<"), Id("A"), CommaT, Id("B"), P1(">")>>)>>)
Tuple1 == Raw(<<Grp("(", <<P1("&"), Life("a"), Id("T"), CommaT>>)>>)
Array == Raw(<<Grp("[", <<Id("u8"), P1(";"), Lit("3")>>)>>)
Slice == Raw(<<Grp("[", <<Id("u8")>>)>>)
FnPtr == Raw(<<Id("fn"), Grp("(", <<Id("u8"), CommaT, P1("&"), Id("str")>>), P2("-", ">"), Id("bool")>>)
FnPtr0 == Raw(<<Id("fn"), Grp("(", <<>>)>>)
FnTr == Raw(<<Id("Fn"), Grp("(", <<Id("T")>>), P2("-", ">"), Id("Vec"), P1("<"), Id("u8"), P1(">")>>)
FnOnce0 == Raw(<<Id("FnOnce"), Grp("(", <<>>)>>)
Assoc(m, ty) == [k |-> "assoc", n |-> m, ty |-> ty]
Self0 == N("self")
Leaf == {N("u8"), N("T"), NameT(Std("string"), "String", <<>>), NameT(<<<<Id("T")>>>>, "Item", <<>>), Tuple2, Array, FnPtr, N("r#type")}
Args0 == {N("u8"), LtT("a"), Tuple0, Slice, NameT(Std("io"), "Error", <<>>), Assoc("Item", N("u8"))}
Types1 == Leaf \cup {Tuple0, Tuple1, Slice, FnPtr0, NameT(<<<<Id("Self")>>, <<Id("A")>>>>, "B", <<>>)}
          \cup {NameT(<<<<P1("<"), Id("T"), Id("as"), Id("It"), P1(">")>>>>, "Item", <<>>)}
          \cup {G("Vec", <<x>>) : x \in Args0 \cup Leaf} \cup {G("Map", <<x, y>>) : x \in Args0, y \in {N("T"), Array, G("Vec", <<N("u8")>>), RefT("", FALSE, N("str"))}}
          \cup {NameT(Std("vec"), "Vec", <<x>>) : x \in {N("u8"), G("Option", <<N("T")>>), Assoc("Item", G("Vec", <<N("u8")>>))}}
          \cup {[G("Vec", <<N("u8")>>) EXCEPT !.tr = TRUE], G("Box", <<[k |-> "dyn", b |-> <<FnTr>>]>>), G("Box", <<[k |-> "dyn", b |-> <<N("A"), LtT("a"), N("B")>>]>>), G("Vec", <<RefT("a", FALSE, Slice)>>),
             G("A", <<LtT("a"), LtT("b")>>), G("A", <<LtT("a"), LtT("static"), LtT("b")>>), NameT(Std("a"), "B", <<LtT("a"), LtT("_")>>), G("A", <<Assoc("B", N("C")), Assoc("D", N("E"))>>)}
          \cup {RefT(lt, m, ty) : lt \in {"", "a", "static"}, m \in BOOLEAN, ty \in {N("str"), Slice, G("Vec", <<N("T")>>), NameT(Std("io"), "Read", <<>>), Tuple2}}
          \cup {[k |-> "dyn", b |-> <<N("A")>>], [k |-> "dyn", b |-> <<FnTr, LtT("static")>>], [k |-> "impl", b |-> <<N("A")>>], [k |-> "impl", b |-> <<G("Iterator", <<Assoc("Item", N("u8"))>>), N("Clone"), LtT("a")>>], [k |-> "impl", b |-> <<FnTr>>]}
Nested == {G("Option", <<x>>) : x \in Types1} \cup {G("Result", <<x, [k |-> "dyn", b |-> <<N("A")>>]>>) : x \in Types1} \cup {NameT(<<<<Id("a")>>>>, "B", <<LtT("a"), x, Assoc("C", x)>>) : x \in {y \in Types1 : y.k # "dyn"}}
SomeTypes == {N("u8"), G("Vec", <<N("T")>>), RefT("a", TRUE, N("str")), NameT(Std("string"), "String", <<>>), Array}
AnyTypes == SomeTypes \cup {Tuple2, FnPtr, G("Box", <<[k |-> "dyn", b |-> <<FnTr>>]>>), [k |-> "impl", b |-> <<N("A"), LtT("a")>>], G("Map", <<N("u8"), G("Vec", <<G("Option", <<N("T")>>)>>)>>), G("Iterator", <<Assoc("Item", N("u8"))>>)}
TypePool == CASE Universe = "types" -> Types1 \cup Nested [] Universe = "any" -> AnyTypes [] Universe = "shapes" -> {N("u8"), G("Vec", <<N("T")>>)} [] OTHER -> {N("u8")}
----------------------------------------------------------------------------
TraitB == {N("A"), NameT(Std("fmt"), "Debug", <<>>), G("B", <<N("u8"), Assoc("Out", N("T"))>>), FnTr, FnOnce0}
BoundB == TraitB \cup {LtT("a"), LtT("static"), [k |-> "unsized"]}
\* bounds with more inside
DeepB == {G("C", <<FnPtr>>), G("C", <<G("D", <<FnPtr, LtT("a")>>), Assoc("Out", FnPtr)>>), G("C", <<G("D", <<G("E", <<N("u8"), LtT("a")>>)>>), Tuple2, Array>>), G("C", <<[k |-> "dyn", b |-> <<FnTr, LtT("a")>>], N("u8")>>), G("C", <<LtT("a"), LtT("b")>>),
          NameT(Std("iter"), "C", <<RefT("a", TRUE, G("D", <<FnPtr0>>))>>), Raw(<<Id("FnMut"), Grp("(", <<>>), P2("-", ">"), Id("Map"), P1("<"), Id("u8"), CommaT, Id("fn"), Grp("(", <<>>), P2("-", ">"), Id("bool"), P1(">")>>)}
\* (unsized bounds once)
BoundSeqs == {<<x>> : x \in DeepB} \cup {<<LtT("a"), x>> : x \in DeepB} \cup {<<>>} \cup {<<x>> : x \in BoundB} \cup {s \in BoundB \X BoundB : s[1] # s[2]}
             \cup {<<LtT("a"), N("A"), [k |-> "unsized"], NameT(Std("fmt"), "Debug", <<>>)>>, <<[k |-> "unsized"], FnTr, LtT("static")>>}
FewBounds == {<<>>, <<N("A")>>, <<LtT("a"), N("A")>>, <<N("A"), FnTr, [k |-> "unsized"]>>, <<G("C", <<G("D", <<FnPtr, N("T")>>)>>), N("A")>>}
Prm(k, name, b, d) == [k |-> k, n |-> name, b |-> b, d |-> d]
LtPrm == {Prm("lt", "a", b, <<>>) : b \in {<<>>, <<LtT("b")>>, <<LtT("b"), LtT("static")>>}}
ConstPrm == {Prm("const", "M", <<N("usize")>>, <<>>)}
TyPrm(names, bs, ds) == {Prm("ty", s, b, d) : s \in names, b \in bs, d \in ds}
Defaults == {<<>>, <<N("u8")>>, <<G("Vec", <<N("u8")>>)>>, <<RefT("a", FALSE, N("str"))>>, <<G("Map", <<FnPtr, G("Vec", <<N("u8")>>)>>)>>}
PrmPool(names) == CASE Universe = "generics" -> LtPrm \cup ConstPrm \cup TyPrm(names, BoundSeqs, {<<>>}) \cup TyPrm(names, FewBounds, Defaults)
                    [] OTHER -> {Prm("lt", "a", <<LtT("b")>>, <<>>), Prm("ty", "T", <<>>, <<>>)} \cup TyPrm(names, FewBounds, {<<>>}) \cup ConstPrm
WherePool == CASE Universe = "generics" -> {p \in LtPrm \cup TyPrm({"T"}, BoundSeqs, {<<>>}) : p.b # <<>>} [] OTHER -> {Prm("ty", "T", <<N("A"), LtT("a")>>, <<>>), Prm("lt", "a", <<LtT("b")>>, <<>>)}

VisPool == {<<>>, <<<<>>>>, <<<<<<Id("crate")>>>>>>, <<<<<<Id("self")>>>>>>, <<<<<<Id("super")>>>>>>, <<<<<<Id("in"), Id("a"), P2(":", ":"), Id("b")>>>>>>}
Bools == IF Universe \in {"shapes", "any"} THEN BOOLEAN ELSE {FALSE}
----------------------------------------------------------------------------
Field(nm, ty) == [n |-> nm, at |-> <<>>, vis |-> <<>>, ty |-> ty]
NoBody == [k |-> "none", fs |-> <<>>, tr |-> FALSE]
Struct0(k) == [k |-> "struct", at |-> <<>>, vis |-> <<>>, id |-> "S", gen |-> <<>>, wh |-> <<>>, body |-> [k |-> k, fs |-> <<>>, tr |-> FALSE]]
Enum0 == [k |-> "enum", at |-> <<>>, vis |-> <<>>, id |-> "E", gen |-> <<>>, wh |-> <<>>, vs |-> <<>>, tr |-> FALSE]
Fn0 == [k |-> "fn", at |-> <<>>, vis |-> <<>>, id |-> "f", gen |-> <<>>, wh |-> <<>>, quals |-> <<>>, abi |-> <<>>, ps |-> <<>>, tr |-> FALSE, ret |-> <<>>, body |-> <<>>]
Bodies0 == {Struct0("named"), Struct0("tuple"), Struct0("none"), Enum0, Fn0}

FName(j) == <<"a", "b_1", "r#fn", "d", "e", "f", "g", "h", "i", "j", "k", "l">>[j]
\* a field is last in its list, with what is added to it
WithField(b, f) == [b EXCEPT !.fs = Append(@, [f EXCEPT !.n = IF b.k = "named" THEN FName(Len(b.fs) + 1) ELSE ""])]
LastField(b, f(_)) == [b EXCEPT !.fs = [@ EXCEPT ![Len(@)] = f(@)]]

\* the bodies an item has in hand: its own, or that of its last variant
HasBody == item.k = "struct" \/ (item.k = "enum" /\ item.vs # <<>>)
TheBody == IF item.k = "struct" THEN item.body ELSE item.vs[Len(item.vs)].body
SetBody(b) == item' = IF item.k = "struct" THEN [item EXCEPT !.body = b] ELSE [item EXCEPT !.vs = [@ EXCEPT ![Len(@)] = [@ EXCEPT !.body = b]]]

AddVis == item.vis = <<>> /\ \E v \in VisPool \ {<<>>} : item' = [item EXCEPT !.vis = v]
AddAttr == Len(item.at) < 3 /\ \E a \in AttrPool : item' = [item EXCEPT !.at = Append(@, a)]
AddField == HasBody /\ TheBody.k # "none" /\ Len(TheBody.fs) < 12 /\ \E ty \in TypePool : SetBody(WithField(TheBody, Field("", ty)))
AddFieldAttr == HasBody /\ TheBody.k # "none" /\ TheBody.fs # <<>> /\ \E a \in AttrPool :
  LET b == TheBody IN SetBody([b EXCEPT !.fs = [@ EXCEPT ![Len(@)] = [@ EXCEPT !.at = Append(@, a)]]])
AddFieldVis == item.k = "struct" /\ item.body.k # "none" /\ item.body.fs # <<>> /\ item.body.fs[Len(item.body.fs)].vis = <<>> /\ \E v \in VisPool \ {<<>>} :
  LET b == item.body IN SetBody([b EXCEPT !.fs = [@ EXCEPT ![Len(@)] = [@ EXCEPT !.vis = v]]])
\* a type that begins with a group would read as part of the visibility
VisClear(b) == \A j \in 1..Len(b.fs) : b.k = "tuple" /\ b.fs[j].vis = <<<<>>>> => LET t == b.fs[j].ty IN ~(t.k = "raw" /\ t.ts[1].t = "g" /\ t.ts[1].d = "(")
AddBodyTr == HasBody /\ TRUE \in Bools /\ TheBody.k # "none" /\ ~TheBody.tr /\ TheBody.fs # <<>> /\ SetBody([TheBody EXCEPT !.tr = TRUE])
AddVariant == item.k = "enum" /\ Len(item.vs) < 9 /\ \E k \in {"named", "tuple", "none"} :
  item' = [item EXCEPT !.vs = Append(@, [at |-> <<>>, id |-> <<"A", "B", "C", "D", "E", "F", "G", "H", "I">>[Len(@) + 1], body |-> [k |-> k, fs |-> <<>>, tr |-> FALSE], disc |-> <<>>])]
LastV == item.vs[Len(item.vs)]
AddVariantAttr == item.k = "enum" /\ item.vs # <<>> /\ \E a \in AttrPool : item' = [item EXCEPT !.vs = [@ EXCEPT ![Len(@)] = [@ EXCEPT !.at = Append(@, a)]]]
AddDisc == item.k = "enum" /\ item.vs # <<>> /\ LastV.disc = <<>> /\ \E d \in {0, 7, -3, 21} : item' = [item EXCEPT !.vs = [@ EXCEPT ![Len(@)] = [@ EXCEPT !.disc = <<d>>]]]
AddArg == item.k = "fn" /\ Len(item.ps) < 9 /\ \E ty \in TypePool, m \in Bools : item' = [item EXCEPT !.ps = Append(@, [n |-> FName(Len(@) + 1), mut |-> m, ty |-> ty])]
AddSelf == item.k = "fn" /\ item.ps = <<>> /\ Universe # "types" /\ \E t \in {Self0, RefT("", FALSE, Self0), RefT("", TRUE, Self0), RefT("a", FALSE, Self0), RefT("a", TRUE, Self0)} \cup {G("Box", <<N("Self")>>)} :
  item' = [item EXCEPT !.ps = <<[n |-> IF t.k = "name" /\ t.s = "Box" THEN "self" ELSE "", mut |-> FALSE, ty |-> t]>>]
AddListTr == TRUE \in Bools /\ ((item.k = "fn" /\ item.ps # <<>>) \/ (item.k = "enum" /\ item.vs # <<>>)) /\ ~item.tr /\ item' = [item EXCEPT !.tr = TRUE]
AddRet == item.k = "fn" /\ item.ret = <<>> /\ \E ty \in TypePool : item' = [item EXCEPT !.ret = <<ty>>]
AddQual == item.k = "fn" /\ item.quals = <<>> /\ Universe \in {"shapes", "any"} /\ \E q \in {<<"async">>, <<"const">>, <<"unsafe">>, <<"async", "unsafe">>, <<"const", "unsafe">>} : item' = [item EXCEPT !.quals = q]
AddAbi == item.k = "fn" /\ item.abi = <<>> /\ Universe \in {"shapes", "any"} /\ \E q \in {"", "\"C\"", "\"system\"", "r\"C\""} : item' = [item EXCEPT !.abi = <<q>>]
AddCode == item.k = "fn" /\ Universe \in {"shapes", "any"} /\ item.body = <<>>
           /\ \E b \in {<<Id("x"), P1("+"), Lit("1")>>, <<Id("let"), Id("s"), P1("="), Lit("\"}\""), P1(";"), Grp("{", <<Id("s")>>)>>, <<Id("if"), Id("a"), P2("=", "="), Id("b"), Grp("{", <<Id("return"), P1(";")>>), P1("#"), Grp("[", <<Id("x")>>)>>} :
                item' = [item EXCEPT !.body = b]
GenNames == IF Universe = "any" THEN {"T", "U", "V", "W", "r#type"} ELSE {"T", "U"}
AddGen == \E p \in PrmPool(GenNames) :
  item' = [item EXCEPT !.gen = IF @ = <<>> THEN <<[ps |-> <<p>>, tr |-> FALSE]>> ELSE <<[@[1] EXCEPT !.ps = Append(@, p)]>>]
AddGenTr == TRUE \in Bools /\ item.gen # <<>> /\ ~item.gen[1].tr /\ item' = [item EXCEPT !.gen = <<[@[1] EXCEPT !.tr = TRUE]>>]
AddWhere == \E p \in WherePool : item' = [item EXCEPT !.wh = IF @ = <<>> THEN <<[ps |-> <<p>>, tr |-> FALSE]>> ELSE <<[@[1] EXCEPT !.ps = Append(@, p)]>>]
AddWhereTr == TRUE \in Bools /\ item.wh # <<>> /\ ~item.wh[1].tr /\ item' = [item EXCEPT !.wh = <<[@[1] EXCEPT !.tr = TRUE]>>]
Rename == item.id \in {"S", "E", "f"} /\ Universe \in {"shapes", "any"} /\ \E s \in {"r#type", "_A1"} : item' = [item EXCEPT !.id = s]

Step == CASE Universe = "attrs" -> AddAttr \/ AddFieldAttr \/ AddVariantAttr
          [] Universe = "types" -> AddField \/ AddArg \/ AddRet
          [] Universe = "generics" -> AddGen \/ AddWhere
          [] OTHER -> FALSE

Init0 == CASE Universe = "attrs" -> {Struct0("none"), [Struct0("named") EXCEPT !.body.fs = <<Field("a", N("u8"))>>], [Enum0 EXCEPT !.vs = <<[at |-> <<>>, id |-> "A", body |-> NoBody, disc |-> <<>>]>>]}
           [] Universe = "types" -> {Struct0("named"), Struct0("tuple"), Fn0, [Enum0 EXCEPT !.vs = <<[at |-> <<>>, id |-> "A", body |-> [NoBody EXCEPT !.k = "tuple"], disc |-> <<>>]>>]}
           [] OTHER -> Bodies0

Init == item \in Init0 /\ n = 0
Small == n < MaxParts /\ n' = n + 1
\* (the actions apart, so that a random walk takes each kind as often)
Shape == Universe \in {"shapes", "any"}

\* names are used once in a list, so that an accessor has one answer
Once(s) == Cardinality({s[j] : j \in 1..Len(s)}) = Len(s)
OneUnsized(ps) == \A j \in 1..Len(ps) : Cardinality({k \in 1..Len(ps[j].b) : ps[j].b[k].k = "unsized"}) <= 1
GoodGen(g) == g = <<>> \/ (Once([j \in 1..Len(g[1].ps) |-> g[1].ps[j].n]) /\ OneUnsized(g[1].ps))
GoodAt(at) == Once([j \in 1..Len(at) |-> IF at[j].k \in {"pair", "grp"} THEN <<at[j].k, at[j].s>> ELSE <<"-", j>>])
Good == /\ GoodGen(item.gen) /\ GoodAt(item.at)
        /\ item.k = "struct" => VisClear(item.body) /\ \A j \in 1..Len(item.body.fs) : GoodAt(item.body.fs[j].at)
        /\ item.k = "enum" => \A j \in 1..Len(item.vs) : GoodAt(item.vs[j].at) /\ \A k \in 1..Len(item.vs[j].body.fs) : GoodAt(item.vs[j].body.fs[k].at)

Next ==
  \/ (Small /\ ~Shape /\ Step /\ Good')
  \/ (Small /\ Shape /\ AddVis /\ Good')
  \/ (Small /\ Shape /\ AddAttr /\ Good')
  \/ (Small /\ Shape /\ AddField /\ Good')
  \/ (Small /\ Shape /\ AddFieldAttr /\ Good')
  \/ (Small /\ Shape /\ AddFieldVis /\ Good')
  \/ (Small /\ Shape /\ AddBodyTr /\ Good')
  \/ (Small /\ Shape /\ AddVariant /\ Good')
  \/ (Small /\ Shape /\ AddVariantAttr /\ Good')
  \/ (Small /\ Shape /\ AddDisc /\ Good')
  \/ (Small /\ Shape /\ AddArg /\ Good')
  \/ (Small /\ Shape /\ AddSelf /\ Good')
  \/ (Small /\ Shape /\ AddListTr /\ Good')
  \/ (Small /\ Shape /\ AddRet /\ Good')
  \/ (Small /\ Shape /\ AddQual /\ Good')
  \/ (Small /\ Shape /\ AddAbi /\ Good')
  \/ (Small /\ Shape /\ AddCode /\ Good')
  \/ (Small /\ Shape /\ AddGen /\ Good')
  \/ (Small /\ Shape /\ AddGenTr /\ Good')
  \/ (Small /\ Shape /\ AddWhere /\ Good')
  \/ (Small /\ Shape /\ AddWhereTr /\ Good')
  \/ (Small /\ Shape /\ Rename /\ Good')
Spec == Init /\ [][Next]_vars

Src == ItemToks(item, "source")
\* what an item is written with is one of the ways it may be printed
SelfInv == PrintsAs(item, Flat(Src))
Emit == (n >= Skip) => PrintT(ToJson([item |-> item, toks |-> Src]))
=============================================================================
