------------------------------- MODULE JPart -------------------------------
(***************************************************************************)
(* The parts of an item on their own: [k, a, rest] is the part a of kind k, *)
(* where rest are tokens that follow it in the item.  A part has the tokens *)
(* it is written with and printed with, and the report a reader gets, which *)
(* is the one it has as part of the item.                                   *)
(* Also pieces: a list of types cut at a separator.                         *)
(***************************************************************************)
EXTENDS JItem

Part(k, a, rest) == [k |-> k, a |-> a, rest |-> rest]

NamedToks(f, src) == Attrs(f.at, src) \o VisToks(f.vis) \o <<Id(f.n), Pu(<<":">>)>> \o TypeToks(f.ty, src)
PartToks(p, src) ==
  CASE p.k = "attr" -> AttrToks(p.a, src)
    [] p.k = "lit" -> LitToks(p.a)
    [] p.k = "meta" -> Attrs(p.a, src)
    [] p.k = "nested" -> Join([j \in 1..Len(p.a.b) |-> AttrToks(p.a.b[j], src)], <<CommaT>>) \o End(p.a.b, p.a.tr, src)
    [] p.k = "generics" -> GenToks(p.a, src)
    [] p.k = "gparam" -> ParamToks(p.a, src)
    [] p.k = "where" -> WhereToks(p.a, src)
    [] p.k \in {"type", "name"} -> TypeToks(p.a, src)
    [] p.k = "fields" -> IF p.a.k = "none" THEN (IF src = "source" THEN <<Pu(<<";">>)>> ELSE <<>>) ELSE Body(p.a, src)
    [] p.k \in {"tfield", "sfield"} -> FieldToks(p.a, src)
    [] p.k = "values" -> <<Grp("{", Join([j \in 1..Len(p.a.vs) |-> VariantToks(p.a.vs[j], src)], <<CommaT>>) \o End(p.a.vs, p.a.tr, src))>>
    [] p.k = "value" -> VariantToks(p.a, src)
    [] p.k = "params" -> <<Grp("(", Join([j \in 1..Len(p.a.ps) |-> ArgToks(p.a.ps[j], src)], <<CommaT>>) \o End(p.a.ps, p.a.tr, src))>>
    [] p.k = "param" -> ArgToks(p.a, src)
    [] p.k \in {"struct", "enum", "fn"} -> ItemToks(p.a, src)

\* a type without its lifetime, mut, impl and the name it is associated with
RECURSIVE UsedToks(_)
UsedToks(t) ==
  CASE t.k = "ref" -> <<Pu(<<"&">>)>> \o TypeToks(t.ty, "print")
    [] t.k = "impl" -> Join([j \in 1..Len(t.b) |-> TypeToks(t.b[j], "print")], <<Pu(<<"+">>)>>)
    [] t.k = "assoc" -> UsedToks(t.ty)
    [] OTHER -> TypeToks(t, "print")

PartRep(p) ==
  CASE p.k = "attr" -> AttrRep(p.a)
    [] p.k = "lit" -> LitRep(p.a)
    [] p.k = "meta" -> MetaRep(p.a)
    [] p.k = "nested" -> MetaRep(p.a.b)
    [] p.k = "generics" -> [ps |-> ParamsRep(p.a)[1], args |-> OnlyIdents(p.a)]
    [] p.k = "where" -> [ps |-> ParamsRep(p.a)[1], args |-> OnlyIdents(p.a)]
    [] p.k = "gparam" -> ParamRep(p.a)
    [] p.k = "type" -> TypeRep(p.a)
    [] p.k = "name" -> NameRep(p.a)
    [] p.k = "fields" -> BodyRep(p.a)
    [] p.k \in {"tfield", "sfield"} -> FieldRep(p.a, 1)
    [] p.k = "values" -> [j \in 1..Len(p.a.vs) |-> VariantRep(p.a.vs[j])]
    [] p.k = "value" -> VariantRep(p.a)
    [] p.k = "params" -> [j \in 1..Len(p.a.ps) |-> ArgRep(p.a.ps[j])]
    [] p.k = "param" -> ArgRep(p.a)
    [] p.k \in {"struct", "enum", "fn"} -> Report(p.a)

----------------------------------------------------------------------------
(* The parts of an item.                                                     *)
RECURSIVE AttrParts(_)
AttrParts(a) == {Part("attr", a, <<>>)}
                \cup (CASE a.k = "lit" -> (IF a.lit.neg THEN {} ELSE {Part("lit", a.lit, <<>>)})
                        [] a.k = "pair" -> (IF a.lit.neg THEN {} ELSE {Part("lit", a.lit, <<>>)})
                        [] a.k = "grp" -> {Part("nested", [b |-> a.b, tr |-> a.tr], <<>>)} \cup UNION {AttrParts(a.b[j]) : j \in 1..Len(a.b)}
                        [] OTHER -> {})
MetaParts(at, rest) == (IF at = <<>> THEN {} ELSE {Part("meta", at, rest)}) \cup UNION {AttrParts(at[j]) : j \in 1..Len(at)}
RECURSIVE TypeParts(_)
\* (?Sized is no name)
TypeParts(t) ==
  IF t.k = "unsized" THEN {}
  ELSE {Part("type", t, <<>>)} \cup (IF t.k \in {"name", "raw", "lt"} THEN {Part("name", t, <<>>)} ELSE {})
       \cup (CASE t.k = "name" -> UNION {TypeParts(t.g[j]) : j \in 1..Len(t.g)}
               [] t.k \in {"ref", "assoc"} -> TypeParts(t.ty)
               [] t.k \in {"dyn", "impl"} -> UNION {TypeParts(t.b[j]) : j \in 1..Len(t.b)}
               [] OTHER -> {})
ParamParts(g) == IF g = <<>> THEN {} ELSE UNION {{Part("gparam", p, <<>>)} \cup UNION {TypeParts(p.b[j]) : j \in 1..Len(p.b)} \cup UNION {TypeParts(p.d[j]) : j \in 1..Len(p.d)}
                                                 : p \in {g[1].ps[k] : k \in 1..Len(g[1].ps)}}
FieldParts(f) == {Part(IF f.n = "" THEN "tfield" ELSE "sfield", f, <<>>)} \cup MetaParts(f.at, VisToks(f.vis) \o TypeToks(f.ty, "source")) \cup TypeParts(f.ty)
BodyParts(b, rest) == {Part("fields", b, rest)} \cup UNION {FieldParts(b.fs[j]) : j \in 1..Len(b.fs)}

Parts(i) ==
  LET gen == GenToks(i.gen, "source")
      wh == WhereToks(i.wh, "source")
      semi == <<Pu(<<";">>)>>
      \* what comes after the where clause, and after the generics
      end == CASE i.k = "struct" -> (IF i.body.k = "named" THEN Body(i.body, "source") ELSE semi)
               [] i.k = "enum" -> PartToks(Part("values", i, <<>>), "source")
               [] i.k = "fn" -> <<Grp("{", i.body)>>
      mid == CASE i.k = "struct" -> (IF i.body.k = "tuple" THEN Body(i.body, "source") \o wh ELSE wh)
               [] i.k = "enum" -> wh
               [] i.k = "fn" -> PartToks(Part("params", i, <<>>), "source") \o (IF i.ret = <<>> THEN <<>> ELSE <<Pu(<<"-", ">">>)>> \o TypeToks(i.ret[1], "source")) \o wh
  IN {Part(i.k, i, <<>>)}
     \cup MetaParts(i.at, VisToks(i.vis) \o <<Id("struct"), Id("S")>> \o semi)
     \cup (IF i.gen = <<>> THEN {} ELSE {Part("generics", i.gen, r) : r \in {<<>>, mid \o end}}) \cup ParamParts(i.gen)
     \cup (IF i.wh = <<>> THEN {} ELSE {Part("where", i.wh, r) : r \in {<<>>, end}}) \cup ParamParts(i.wh)
     \cup (CASE i.k = "struct" -> BodyParts(i.body, IF i.body.k = "tuple" THEN wh \o semi ELSE <<>>)
             [] i.k = "enum" -> {Part("values", [vs |-> i.vs, tr |-> i.tr], <<>>)}
                                \cup UNION {{Part("value", v, <<>>)} \cup MetaParts(v.at, <<Id(v.id)>>) \cup BodyParts(v.body, <<>>) : v \in {i.vs[j] : j \in 1..Len(i.vs)}}
             [] i.k = "fn" -> {Part("params", [ps |-> i.ps, tr |-> i.tr], r) : r \in {<<>>, <<Pu(<<"-", ">">>), Id("u8")>> \o wh \o end}}
                              \cup UNION {{Part("param", p, <<>>)} \cup TypeParts(p.ty) : p \in {i.ps[j] : j \in 1..Len(i.ps)}}
                              \cup UNION {TypeParts(i.ret[j]) : j \in 1..Len(i.ret)})

----------------------------------------------------------------------------
(* Cutting: the tokens outside angle brackets and groups.                    *)
RECURSIVE Outer(_, _)
Outer(ts, d) ==
  IF ts = <<>> THEN <<>>
  ELSE LET h == Head(ts) IN
    IF h.t = "p" /\ h.cs = <<"<">> THEN Outer(Tail(ts), d + 1)
    ELSE IF h.t = "p" /\ h.cs = <<">">> THEN Outer(Tail(ts), d - 1)
    ELSE (IF d = 0 THEN <<h>> ELSE <<>>) \o Outer(Tail(ts), d)
SepToks(sep) == <<Pu(sep)>>
\* no punctuation of a separator stands in the type outside its brackets
Uncut(t, sep) == LET o == Outer(TypeToks(t, "source"), 0) IN \A j \in 1..Len(o) : o[j].t = "p" => \A k \in 1..Len(o[j].cs) : \A m \in 1..Len(sep) : o[j].cs[k] # sep[m]
CutToks(sep, ts, tr) == Join([j \in 1..Len(ts) |-> TypeToks(ts[j], "source")], SepToks(sep)) \o (IF tr THEN SepToks(sep) ELSE <<>>)
CutRep(ts) == [j \in 1..Len(ts) |-> Plain0(TypeToks(ts[j], "source"))]
=============================================================================
