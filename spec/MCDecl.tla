------------------------------- MODULE MCDecl -------------------------------
(***************************************************************************)
(* Declarations of structs with named fields, built up step by step.  The   *)
(* meaning of a declaration is the sequence of its fields: names, key and   *)
(* ignore attributes, and types.  All else about how it is written          *)
(* (visibilities, other attributes, the spelling of types and generics)     *)
(* has no part in the meaning.                                              *)
(***************************************************************************)
EXTENDS JConv, Json, TLC

CONSTANTS Universe,    \* "pairs", "attrs", "shapes" or "any"
          MaxF         \* at most so many fields

A(a) == [a |-> a]
Key(s) == [a |-> "key", s |-> s]
C(c) == [c |-> c]
IntT(r) == [c |-> "int", r |-> r]
Opt(e) == [c |-> "opt", e |-> e]
Vec(e) == [c |-> "vec", e |-> e]
MapT(k, e) == [c |-> "map", k |-> k, e |-> e]
Pairs(k, e) == [c |-> "pairs", k |-> k, e |-> e]
Field(nm, raw, at, e, vis, sp) == [nm |-> nm, raw |-> raw, at |-> at, e |-> e, vis |-> vis, sp |-> sp]
F0(nm, at, e) == Field(nm, FALSE, at, e, "", "plain")
Name(i) == <<96 + i>>

\* structs used as field types
P1 == [c |-> "struct", id |-> "P1", fs |-> <<F0(<<110>>, <<>>, IntT("i32")), F0(<<115>>, <<Key(<<34, 107, 34>>)>>, Opt(C("str")))>>]
P2 == [c |-> "struct", id |-> "P2", fs |-> <<F0(<<112>>, <<>>, Vec(P1)), F0(<<113>>, <<A("ignore")>>, C("opq")), F0(<<98>>, <<>>, C("bool"))>>]
P3 == [c |-> "struct", id |-> "P3", fs |-> <<>>]
Wrap(e) == [c |-> "struct", id |-> "W", fs |-> <<F0(<<119>>, <<>>, e)>>]

\* literals: plain, empty, escaped, raw
Lits == {<<34, 107, 34>>, <<34, 34>>, <<34, 97, 32, 98, 46, 99, 34>>,                                  \* "k"  ""  "a b.c"
         <<34, 92, 34, 34>>, <<34, 92, 34, 97, 92, 34, 34>>, <<34, 92, 92, 34>>, <<34, 92, 110, 92, 116, 92, 114, 92, 48, 34>>,  \* "\""  "\"a\""  "\\"  "\n\t\r\0"
         <<34, 92, 117, 123, 49, 70, 52, 57, 54, 125, 233, 34>>, <<34, 92, 120, 52, 49, 92, 39, 39, 34>>,      \* "\u{1F496}é"  "\x41\''"
         <<34, 123, 125, 35, 91, 93, 40, 34>>, <<34, 47, 47, 32, 42, 47, 34>>, <<34, 114, 35, 120, 34>>,       \* "{}#[]("  "// */"  "r#x"
         <<114, 34, 97, 92, 110, 34>>, <<114, 35, 34, 97, 34, 98, 34, 35>>, <<114, 35, 35, 34, 34, 35, 120, 34, 35, 35>>,  \* r"a\n"  r#"a"b"#  r##""#x"##
         <<114, 35, 34, 34, 35>>, <<114, 34, 120, 34>>}                                                   \* r#""#  r"x"
Harmless == {A("doc"), A("block"), A("docattr"), A("allow"), A("allow2"), A("cfg"), A("hidden"), A("depr"), A("depr1"), A("doctricky")}
Special == {A("ignore"), Key(<<34, 107, 34>>)}
AtMostOne(s) == /\ Cardinality({i \in 1..Len(s) : s[i].a = "key"}) <= 1
                /\ Cardinality({i \in 1..Len(s) : s[i].a = "ignore"}) <= 1
                /\ Cardinality({i \in 1..Len(s) : s[i].a \in {"depr", "depr1"}}) <= 1
AttrSeqs == {s \in {<<>>} \cup {<<x>> : x \in Harmless \cup Special} \cup ((Harmless \cup Special) \X (Harmless \cup Special)) : AtMostOne(s)}
            \cup {<<x, y, z>> : x \in {A("doc"), A("allow")}, y \in Special, z \in {A("doc"), A("cfg")}}
            \cup {<<x, y, z>> : x \in {Key(<<34, 107, 34>>)}, y \in {A("doc"), A("allow2")}, z \in {A("ignore")}}
            \cup {<<x, y, z>> : x \in {A("ignore")}, y \in {A("doc"), A("allow2")}, z \in {Key(<<34, 107, 34>>)}}

Base == {C("str"), C("bool"), C("json"), C("f64"), IntT("i32"), IntT("u8"), IntT("u64"), IntT("i128")}
Types == Base \cup {Opt(C("bool")), Opt(C("str")), Opt(Vec(Opt(C("bool")))), Vec(IntT("u8")), Vec(Vec(Vec(C("bool")))), Vec(C("str")),
                    MapT("str", IntT("i32")), MapT("i32", Vec(C("str"))), MapT("str", MapT("str", Opt(C("bool")))),
                    Pairs("str", C("json")), Pairs("u8", C("bool")), Vec(Pairs("str", IntT("u8"))),
                    P1, P2, P3, Opt(P1), Vec(P1), MapT("str", P2), Opt(Vec(P3)), Wrap(IntT("i32")), Wrap(Vec(C("str"))), Vec(Wrap(Wrap(C("bool"))))}
Defaulted == {C("str"), C("bool"), C("f64"), IntT("i32"), IntT("u64"), Opt(C("str")), Vec(IntT("u8")), MapT("str", IntT("i32")), C("opq"), Opt(C("json"))}
RawNames == {<<116, 121, 112, 101>>, <<102, 110>>, <<109, 97, 116, 99, 104>>, <<115, 116, 114, 117, 99, 116>>, <<97>>}      \* type fn match struct a
Names == {<<97>>, <<95, 120>>, <<233>>, <<98, 67, 49>>, <<106, 115, 111, 110>>, <<111, 98, 106>>, <<118>>, <<109, 97, 112>>, <<106, 115>>, <<111, 116, 104, 101, 114>>,
          <<107, 101, 121>>, <<105, 103, 110, 111, 114, 101>>, <<115, 101, 108, 102, 95>>, <<117, 110, 105, 111, 110>>, <<119, 104, 101, 114, 101, 95>>, <<114>>, <<120>>,
          <<114, 95>>, <<114, 95, 114>>}
Viss == {"", "pub", "pub(crate)", "pub(super)", "pub(self)", "pub(in crate)"}
Ders == {"both", "split", "rev", "more", "path"}
SAttrs == {<<>>, <<"doc">>, <<"repr">>, <<"allow", "doc">>, <<"block", "must_use">>, <<"nonex">>, <<"after_doc">>, <<"after_repr", "doc">>, <<"docattr", "after_allow">>}
SNames == {<<83>>, <<95, 83>>, <<108, 111, 119>>, <<201>>, <<83, 95, 49>>}
\* generics: the fields marked "param" take the type parameters in order, the "ref" ones the lifetimes
Gens1 == {"inline", "where", "wheretrail", "plus", "static", "bothwhere1", "args", "wpath"}
Gens2 == {"two", "twotrail", "twowhere", "mixed"}
GensLt == {"lt", "ltT", "lt2"}
\* type parameters that may be unsized, first in "byparam" fields; constants
GensUs == {"us", "uslast", "uswhere", "usonly", "usmid"}

D(fs) == [svis |-> "", sat |-> <<>>, sname |-> <<83>>, sraw |-> FALSE, der |-> "both", gen |-> "none", tr |-> FALSE, fs |-> fs]
Two(f) == D(<<F0(<<97>>, <<>>, IntT("i32")), f, F0(<<122>>, <<>>, Opt(C("bool")))>>)

----------------------------------------------------------------------------
PairTypes == {IntT("i32"), Opt(C("bool"))}
PairFields(i) == {F0(Name(i), at, e) : e \in PairTypes,
                    at \in {<<>>, <<Key(<<34, 97, 34>>)>>, <<Key(<<34, 122, 92, 34, 233, 34>>)>>, <<A("ignore")>>, <<A("ignore"), Key(<<34, 97, 34>>)>>}}
PairDecls == {D(<<>>)} \cup {D(<<f>>) : f \in PairFields(1)} \cup {D(<<f, g>>) : f \in PairFields(1), g \in PairFields(2)}

M0(k) == F0(Name(k), <<>>, IntT("i32"))
AttrDecls ==
  {Two(F0(<<109>>, at, IntT("u8"))) : at \in AttrSeqs}
  \cup {Two(F0(<<109>>, <<A("ignore")>>, e)) : e \in Defaulted}
  \cup {Two(F0(<<109>>, <<Key(l)>>, IntT("u8"))) : l \in Lits}
ShapeDecls ==
  AttrDecls \cup {Two(F0(<<109>>, <<>>, e)) : e \in Types}
  \cup {Two(Field(<<109>>, FALSE, <<>>, e, "", sp)) : sp \in {"path", "paren"}, e \in {C("str"), Opt(Vec(Opt(C("bool")))), MapT("str", IntT("i32")), Pairs("str", C("json"))}}
  \cup {Two(Field(<<109>>, FALSE, at, C("str"), v, "plain")) : v \in Viss, at \in {<<>>, <<A("doc"), Key(<<34, 107, 34>>)>>}}
  \cup {Two(Field(n, TRUE, at, C("str"), "pub", "plain")) : n \in RawNames \ {<<97>>}, at \in {<<>>, <<A("ignore")>>, <<A("doc")>>}}
  \cup {Two(Field(n, FALSE, <<>>, IntT("u8"), "", "plain")) : n \in Names \ {<<97>>}}
  \cup {[D([k \in 1..n |-> M0(k)]) EXCEPT !.tr = t] : n \in 0..MaxF, t \in BOOLEAN}
  \cup {[Two(M0(2)) EXCEPT !.svis = v, !.tr = TRUE] : v \in Viss}
  \cup {[Two(M0(2)) EXCEPT !.sat = s, !.tr = t] : s \in SAttrs, t \in BOOLEAN}
  \cup {[Two(M0(2)) EXCEPT !.der = r] : r \in Ders}
  \cup {[Two(M0(2)) EXCEPT !.sname = n] : n \in SNames}
  \cup {[Two(M0(2)) EXCEPT !.sname = n, !.sraw = TRUE] : n \in {<<109, 97, 116, 99, 104>>, <<83>>}}
  \cup {[D(<<Field(<<97>>, FALSE, <<>>, e, "", "param"), M0(2)>>) EXCEPT !.gen = g, !.tr = t] : g \in Gens1, t \in BOOLEAN, e \in {IntT("i32"), Vec(C("str"))}}
  \cup {[D(<<Field(<<97>>, FALSE, <<>>, C("str"), "", "param"), M0(2), Field(<<99>>, FALSE, <<>>, e, "pub", "param")>>) EXCEPT !.gen = g] : g \in Gens2, e \in {C("bool"), P1}}
  \cup {[D(<<Field(<<97>>, FALSE, <<>>, Vec(IntT("u8")), "", "vecparam"), M0(2)>>) EXCEPT !.gen = g] : g \in Gens1}
  \cup {[D(<<Field(<<97>>, FALSE, <<>>, C("str"), "", sp), M0(2)>>) EXCEPT !.gen = "lt"] : sp \in {"refstr"}}
  \cup {[D(<<Field(<<97>>, FALSE, <<>>, e, "", "ref"), M0(2)>>) EXCEPT !.gen = "lt"] : e \in {IntT("i32"), C("bool"), C("f64")}}
  \cup {[D(<<Field(<<97>>, FALSE, <<>>, Opt(C("str")), "", "optref"), Field(<<98>>, FALSE, <<Key(<<34, 107, 34>>)>>, Vec(C("str")), "pub", "vecref")>>) EXCEPT !.gen = "lt"]}
  \cup {[D(<<Field(<<97>>, FALSE, <<>>, e, "", "refslice"), M0(2)>>) EXCEPT !.gen = "lt"] : e \in {Vec(IntT("i32")), Pairs("str", IntT("u8"))}}
  \cup {[D(<<Field(<<97>>, FALSE, <<>>, C("str"), "", "refstr"), Field(<<98>>, FALSE, <<>>, IntT("u8"), "", "param"), M0(3)>>) EXCEPT !.gen = "ltT"]}
  \cup {[D(<<Field(<<97>>, FALSE, <<>>, C("str"), "", "refstr"), Field(<<98>>, FALSE, <<A("doc")>>, C("str"), "", "refstr2")>>) EXCEPT !.gen = "lt2"]}
  \cup {[D(<<Field(<<97>>, FALSE, at, C("str"), "", "byparam"), M0(2)>>) EXCEPT !.gen = g] : g \in GensUs, at \in {<<>>, <<Key(<<34, 107, 34>>)>>}}
  \cup {[D(<<Field(<<97>>, FALSE, <<>>, C("str"), "pub", "byparam"), M0(2), Field(<<99>>, FALSE, <<>>, IntT("u8"), "", "param")>>) EXCEPT !.gen = "us2"]}
  \cup {[D(<<Field(<<97>>, FALSE, <<A("ignore")>>, C("opq"), "", "constparam"), M0(2)>>) EXCEPT !.gen = "const", !.tr = t] : t \in BOOLEAN}
  \cup {[D(<<Field(<<97>>, FALSE, <<>>, e, "", "param"), Field(<<98>>, FALSE, <<A("ignore"), A("doc")>>, C("opq"), "", "constparam"), M0(3)>>) EXCEPT !.gen = g] : g \in {"constT", "constT2"}, e \in {C("bool"), P1}}

----------------------------------------------------------------------------
VARIABLES d, ph
vars == <<d, ph>>
Used == {d.fs[i].nm : i \in 1..Len(d.fs)}
Cur == Len(d.fs)

InitSet == IF Universe = "pairs" THEN PairDecls ELSE IF Universe = "attrs" THEN AttrDecls ELSE ShapeDecls
Init == IF Universe = "any" THEN d = D(<<>>) /\ ph = "struct" ELSE d \in InitSet /\ ph = "done"

\* one declaration at a time, every choice open
Struct == /\ ph = "struct"
          /\ \E v \in Viss, s \in SAttrs, r \in Ders, t \in BOOLEAN : d' = [d EXCEPT !.svis = v, !.sat = s, !.der = r, !.tr = t]
          /\ ph' = "field"
NewField == /\ ph = "field" /\ Cur < MaxF
            /\ \E raw \in BOOLEAN : \E n \in (IF raw THEN RawNames ELSE Names \cup {Name(i) : i \in 1..26}) \ Used :
                 d' = [d EXCEPT !.fs = Append(@, Field(n, raw, <<>>, C("str"), "", "plain"))]
            /\ ph' = "type"
ChooseType == /\ ph = "type"
              /\ \/ \E e \in Types, sp \in {"plain", "path", "paren"} : d' = [d EXCEPT !.fs[Cur].e = e, !.fs[Cur].sp = sp] /\ ph' = "attr"
                 \/ \E e \in Defaulted : \E at \in {<<A("ignore")>>, <<A("doc"), A("ignore")>>} : d' = [d EXCEPT !.fs[Cur].e = e, !.fs[Cur].at = at] /\ ph' = "attr"
ChooseAttr == /\ ph = "attr"
              /\ \/ Len(d.fs[Cur].at) < 4
                    /\ \E x \in Harmless \cup {Key(l) : l \in Lits} : LET at == Append(d.fs[Cur].at, x) IN AtMostOne(at) /\ d' = [d EXCEPT !.fs[Cur].at = at] /\ ph' = ph
                 \/ \E v \in Viss : d' = [d EXCEPT !.fs[Cur].vis = v] /\ ph' = "field"
Finish == ph = "field" /\ Cur >= 3 /\ ph' = "done" /\ UNCHANGED d
Next == Struct \/ NewField \/ ChooseType \/ ChooseAttr \/ Finish
Spec == Init /\ [][Next]_vars

\* every meaning is a type: distinct names, at most one key, ignored fields have a default
TypeInv == /\ \A i, j \in 1..Cur : i # j => d.fs[i].nm # d.fs[j].nm
           /\ \A i \in 1..Cur : AtMostOne(d.fs[i].at)
Emit == ph # "done" \/ PrintT(ToJson(d))
=============================================================================
