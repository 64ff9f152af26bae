------------------------------- MODULE JItem -------------------------------
(***************************************************************************)
(* Rust items as json_parse knows them: structs, enums and functions with   *)
(* attributes, visibility, generics and where clauses.  An item has the     *)
(* tokens it is written with, the tokens it may be printed with, and the    *)
(* report a reader of the parsed item gets.                                 *)
(*                                                                          *)
(* Attributes   [k |-> "id", s]  [k |-> "lit", lit]  [k |-> "pair", s, eq, lit]  [k |-> "grp", s, b, tr] *)
(* Literals     [lk |-> "str" | "bytes" | "int" | "float" | "bool", raw, neg, val] *)
(* Types        [k |-> "name", pre, s, g, tr]  path and generic arguments   *)
(*              [k |-> "ref", lt, mut, ty]  [k |-> "dyn", b]  [k |-> "impl", b] *)
(*              [k |-> "raw", ts]  tuples, arrays, slices, function types   *)
(*              [k |-> "assoc", n, ty]  [k |-> "lt", s]  as generic arguments *)
(* Bounds       names, lifetimes, function traits, [k |-> "unsized"]        *)
(* Parameters   [k |-> "ty" | "lt" | "const", n, b, d]                      *)
(* tr: whether the list is written with a comma at its end                  *)
(***************************************************************************)
EXTENDS JQuote

\* a comma that may or may not be there in print; a literal that may or may not be
Maybe(t) == [t |-> "maybe", m |-> t]
CommaT == Pu(<<",">>)
End(list, tr, src) == IF list = <<>> THEN <<>> ELSE IF src = "source" THEN (IF tr THEN <<CommaT>> ELSE <<>>) ELSE <<Maybe(CommaT)>>

RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)

----------------------------------------------------------------------------
LitToks(l) == (IF l.neg THEN <<Pu(<<"-">>)>> ELSE <<>>) \o <<IF l.lk = "bool" THEN Id(l.raw) ELSE Lit(l.raw)>>
RECURSIVE AttrToks(_, _)
AttrToks(a, src) ==
  CASE a.k = "id" -> <<Id(a.s)>>
    [] a.k = "lit" -> LitToks(a.lit)
    [] a.k = "pair" -> <<Id(a.s), Pu(<<a.eq>>)>> \o LitToks(a.lit)
    [] a.k = "grp" -> <<Id(a.s), Grp("(", Join([j \in 1..Len(a.b) |-> AttrToks(a.b[j], src)], <<CommaT>>) \o End(a.b, a.tr, src))>>
Attrs(at, src) == Concat([j \in 1..Len(at) |-> <<Pu(<<"#">>), Grp("[", AttrToks(at[j], src))>>])

LifeToks(s) == <<Life(s)>>
RECURSIVE TypeToks(_, _)
TypeToks(t, src) ==
  CASE t.k = "name" -> Concat([j \in 1..Len(t.pre) |-> t.pre[j] \o <<Pu(<<":", ":">>)>>]) \o <<Id(t.s)>>
                       \o (IF t.g = <<>> THEN <<>> ELSE <<Pu(<<"<">>)>> \o Join([j \in 1..Len(t.g) |-> TypeToks(t.g[j], src)], <<CommaT>>) \o End(t.g, t.tr, src) \o <<Pu(<<">">>)>>)
    [] t.k = "ref" -> <<Pu(<<"&">>)>> \o (IF t.lt = "" THEN <<>> ELSE LifeToks(t.lt)) \o (IF t.mut THEN <<Id("mut")>> ELSE <<>>) \o TypeToks(t.ty, src)
    [] t.k = "dyn" -> <<Id("dyn")>> \o Join([j \in 1..Len(t.b) |-> TypeToks(t.b[j], src)], <<Pu(<<"+">>)>>)
    [] t.k = "impl" -> <<Id("impl")>> \o Join([j \in 1..Len(t.b) |-> TypeToks(t.b[j], src)], <<Pu(<<"+">>)>>)
    [] t.k = "raw" -> t.ts
    [] t.k = "assoc" -> <<Id(t.n), Pu(<<"=">>)>> \o TypeToks(t.ty, src)
    [] t.k = "lt" -> LifeToks(t.s)
    [] t.k = "unsized" -> <<Pu(<<"?">>), Id("Sized")>>

\* bounds in their order, or by kind: traits, lifetimes, ?Sized
IsLt(b) == b.k = "lt"
IsUn(b) == b.k = "unsized"
ByKind(b) == SelectSeq(b, LAMBDA x : ~IsLt(x) /\ ~IsUn(x)) \o SelectSeq(b, IsLt) \o SelectSeq(b, IsUn)
Bounds(b, src) == LET o == IF src = "kinds" THEN ByKind(b) ELSE b IN Join([j \in 1..Len(o) |-> TypeToks(o[j], src)], <<Pu(<<"+">>)>>)
ParamName(p) == CASE p.k = "lt" -> LifeToks(p.n) [] p.k = "const" -> <<Id("const"), Id(p.n)>> [] OTHER -> <<Id(p.n)>>
ParamToks(p, src) == ParamName(p) \o (IF p.b = <<>> THEN <<>> ELSE <<Pu(<<":">>)>> \o Bounds(p.b, src)) \o (IF p.d = <<>> THEN <<>> ELSE <<Pu(<<"=">>)>> \o TypeToks(p.d[1], src))
ParamList(ps, tr, src) == Join([j \in 1..Len(ps) |-> ParamToks(ps[j], src)], <<CommaT>>) \o End(ps, tr, src)
GenToks(g, src) == IF g = <<>> THEN <<>> ELSE <<Pu(<<"<">>)>> \o ParamList(g[1].ps, g[1].tr, src) \o <<Pu(<<">">>)>>
WhereToks(w, src) == IF w = <<>> THEN <<>> ELSE <<Id("where")>> \o ParamList(w[1].ps, w[1].tr, src)

VisToks(v) == IF v = <<>> THEN <<>> ELSE <<Id("pub")>> \o (IF v[1] = <<>> THEN <<>> ELSE <<Grp("(", v[1][1])>>)
FieldToks(f, src) == Attrs(f.at, src) \o VisToks(f.vis) \o (IF f.n = "" THEN <<>> ELSE <<Id(f.n), Pu(<<":">>)>>) \o TypeToks(f.ty, src)
FieldList(fs, tr, src) == Join([j \in 1..Len(fs) |-> FieldToks(fs[j], src)], <<CommaT>>) \o End(fs, tr, src)
Body(b, src) == CASE b.k = "named" -> <<Grp("{", FieldList(b.fs, b.tr, src))>> [] b.k = "tuple" -> <<Grp("(", FieldList(b.fs, b.tr, src))>> [] OTHER -> <<>>
VariantToks(v, src) == Attrs(v.at, src) \o <<Id(v.id)>> \o Body(v.body, src) \o (IF v.disc = <<>> THEN <<>> ELSE <<Pu(<<"=">>)>> \o NumToks(v.disc[1]))
ArgToks(p, src) == (IF p.mut THEN <<Id("mut")>> ELSE <<>>) \o (IF p.n = "" THEN <<>> ELSE <<Id(p.n), Pu(<<":">>)>>) \o TypeToks(p.ty, src)

ItemToks(i, src) ==
  Attrs(i.at, src) \o VisToks(i.vis) \o
  (CASE i.k = "struct" -> <<Id("struct"), Id(i.id)>> \o GenToks(i.gen, src)
                          \o (IF i.body.k = "tuple" THEN Body(i.body, src) \o WhereToks(i.wh, src) \o <<Pu(<<";">>)>>
                              ELSE WhereToks(i.wh, src) \o (IF i.body.k = "none" THEN <<Pu(<<";">>)>> ELSE Body(i.body, src)))
     [] i.k = "enum" -> <<Id("enum"), Id(i.id)>> \o GenToks(i.gen, src) \o WhereToks(i.wh, src)
                        \o <<Grp("{", Join([j \in 1..Len(i.vs) |-> VariantToks(i.vs[j], src)], <<CommaT>>) \o End(i.vs, i.tr, src))>>
     [] i.k = "fn" -> [j \in 1..Len(i.quals) |-> Id(i.quals[j])]
                      \o (IF i.abi = <<>> THEN <<>> ELSE <<Id("extern")>> \o (IF i.abi[1] # "" THEN <<Lit(i.abi[1])>> ELSE IF src = "source" THEN <<>> ELSE <<Maybe(Lit("\"C\""))>>))
                      \o <<Id("fn"), Id(i.id)>> \o GenToks(i.gen, src)
                      \o <<Grp("(", Join([j \in 1..Len(i.ps) |-> ArgToks(i.ps[j], src)], <<CommaT>>) \o End(i.ps, i.tr, src))>>
                      \o (IF i.ret = <<>> THEN <<>> ELSE <<Pu(<<"-", ">">>)>> \o TypeToks(i.ret[1], src)) \o WhereToks(i.wh, src) \o <<Grp("{", i.body)>>)

----------------------------------------------------------------------------
(* What a reader gets.  Tokens are reported without their spacing.           *)
RECURSIVE Plain0(_)
Plain0(ts) ==
  Concat([k \in 1..Len(ts) |->
    CASE ts[k].t = "p" -> [j \in 1..Len(ts[k].cs) |-> [t |-> "p", s |-> ts[k].cs[j]]]
      [] ts[k].t = "f" -> <<[t |-> "p", s |-> "'"], Id(ts[k].s)>>
      [] ts[k].t = "g" -> <<[t |-> "g", d |-> ts[k].d, b |-> Plain0(ts[k].b)]>>
      [] OTHER -> <<ts[k]>>])

\* (acc: what the accessors of a literal give)
LitRep(l) == [lk |-> l.lk, toks |-> Plain0(LitToks(l)), val |-> l.val, acc |-> <<[lk |-> l.lk, val |-> l.val]>>]
RECURSIVE MetaRep(_)
AttrRep(a) ==
  CASE a.k = "id" -> [k |-> "id", s |-> a.s]
    [] a.k = "lit" -> [k |-> "lit", lit |-> LitRep(a.lit)]
    [] a.k = "pair" -> [k |-> "pair", s |-> a.s, eq |-> a.eq, lit |-> LitRep(a.lit)]
    [] a.k = "grp" -> [k |-> "grp", s |-> a.s, b |-> MetaRep(a.b)]
\* the list, and what the accessors find in it
MetaRep(at) ==
  LET of(kind) == SelectSeq(at, LAMBDA a : a.k = kind)
      first(kind, key) == LET hit == SelectSeq(at, LAMBDA a : a.k = kind /\ a.s = key) IN hit[1]
  IN [items |-> [j \in 1..Len(at) |-> AttrRep(at[j])],
      idents |-> [j \in 1..Len(of("id")) |-> of("id")[j].s],
      lits |-> [j \in 1..Len(of("lit")) |-> LitRep(of("lit")[j].lit)],
      byindex |-> LET s == SelectSeq(at, LAMBDA a : a.k \in {"id", "lit"}) IN [j \in 1..Len(s) |-> AttrRep(s[j])],
      bykey |-> [j \in 1..Len(of("pair")) |-> LitRep(first("pair", of("pair")[j].s).lit)],
      inner |-> [j \in 1..Len(of("grp")) |->
                   LET ps == SelectSeq(first("grp", of("grp")[j].s).b, LAMBDA a : a.k = "pair")
                       key(k) == SelectSeq(ps, LAMBDA a : a.s = k)[1]
                   IN [n \in 1..Len(ps) |-> LitRep(key(ps[n].s).lit)]],
      nests |-> TRUE,
      none |-> FALSE,
      sizes |-> <<Len(of("id")), Len(of("lit")), Cardinality({of("pair")[j].s : j \in 1..Len(of("pair"))}), Cardinality({of("grp")[j].s : j \in 1..Len(of("grp"))})>>]

NameRep0(id) == [pre |-> <<>>, id |-> id, g |-> <<>>, islt |-> FALSE]
RECURSIVE TypeRep(_)
\* a bound, or the one name of a type
NameRep(t) ==
  CASE t.k = "name" -> [pre |-> [j \in 1..Len(t.pre) |-> Plain0(t.pre[j])], id |-> <<Id(t.s)>>, g |-> [j \in 1..Len(t.g) |-> TypeRep(t.g[j])], islt |-> FALSE]
    [] t.k = "raw" -> NameRep0(Plain0(t.ts))
    [] t.k = "lt" -> [NameRep0(Plain0(LifeToks(t.s))) EXCEPT !.islt = TRUE]
Ty0 == [id |-> <<>>, ref |-> FALSE, lt |-> <<>>, mut |-> FALSE, dyn |-> FALSE, imp |-> FALSE, names |-> <<>>, islt |-> FALSE]
TypeRep(t) ==
  CASE t.k = "ref" -> [Ty0 EXCEPT !.ref = TRUE, !.lt = IF t.lt = "" THEN <<>> ELSE Plain0(LifeToks(t.lt)), !.mut = t.mut, !.names = <<NameRep(t.ty)>>]
    [] t.k = "dyn" -> [Ty0 EXCEPT !.dyn = TRUE, !.names = [j \in 1..Len(t.b) |-> NameRep(t.b[j])]]
    [] t.k = "impl" -> [Ty0 EXCEPT !.imp = TRUE, !.names = [j \in 1..Len(t.b) |-> NameRep(t.b[j])]]
    [] t.k = "assoc" -> [TypeRep(t.ty) EXCEPT !.id = <<Id(t.n)>>]
    [] OTHER -> [Ty0 EXCEPT !.names = <<NameRep(t)>>, !.islt = t.k = "lt"]

ParamRep(p) ==
  LET tr == SelectSeq(p.b, LAMBDA x : ~IsLt(x) /\ ~IsUn(x))
      lt == SelectSeq(p.b, IsLt)
  IN [n |-> Plain0(ParamName(p)), traits |-> [j \in 1..Len(tr) |-> NameRep(tr[j])], lts |-> [j \in 1..Len(lt) |-> NameRep(lt[j])],
      sized |-> ~(\E j \in 1..Len(p.b) : IsUn(p.b[j])), d |-> [j \in 1..Len(p.d) |-> TypeRep(p.d[j])], islt |-> p.k = "lt", isst |-> p.k = "lt" /\ p.n = "static"]
ParamsRep(g) == IF g = <<>> THEN <<>> ELSE <<[j \in 1..Len(g[1].ps) |-> ParamRep(g[1].ps[j])]>>
Args(g) == Join([j \in 1..Len(g[1].ps) |-> IF g[1].ps[j].k = "const" THEN <<Id(g[1].ps[j].n)>> ELSE ParamName(g[1].ps[j])], <<CommaT>>)
OnlyIdents(g) == IF g = <<>> \/ g[1].ps = <<>> THEN <<>> ELSE Plain0(<<Pu(<<"<">>)>> \o Args(g) \o <<Pu(<<">">>)>>)
VisRep(v) == IF v = <<>> THEN <<>> ELSE IF v[1] = <<>> THEN <<<<>>>> ELSE <<<<Plain0(v[1][1])>>>>
\* no attributes at all, or a list of them
AtRep(at) == IF at = <<>> THEN <<>> ELSE <<MetaRep(at)>>
FieldRep(f, j) == [n |-> f.n, pos |-> j - 1, vis |-> VisRep(f.vis), at |-> AtRep(f.at), ty |-> TypeRep(f.ty)]
BodyRep(b) == [k |-> b.k, fs |-> IF b.k = "none" THEN <<>> ELSE [j \in 1..Len(b.fs) |-> FieldRep(b.fs[j], j)]]
VariantRep(v) == [id |-> v.id, at |-> AtRep(v.at), body |-> BodyRep(v.body), disc |-> v.disc]
ArgRep(p) == [n |-> IF p.n = "" THEN <<>> ELSE (IF p.mut THEN <<Id("mut")>> ELSE <<>>) \o <<Id(p.n)>>, ty |-> TypeRep(p.ty)]

Report(i) ==
  CASE i.k = "struct" -> [k |-> "struct", id |-> i.id, vis |-> VisRep(i.vis), at |-> AtRep(i.at), gen |-> ParamsRep(i.gen), args |-> OnlyIdents(i.gen), wh |-> ParamsRep(i.wh), body |-> BodyRep(i.body)]
    [] i.k = "enum" -> [k |-> "enum", id |-> i.id, vis |-> VisRep(i.vis), at |-> AtRep(i.at), gen |-> ParamsRep(i.gen), args |-> OnlyIdents(i.gen), wh |-> ParamsRep(i.wh),
                        vs |-> [j \in 1..Len(i.vs) |-> VariantRep(i.vs[j])]]
    [] i.k = "fn" -> [k |-> "fn", id |-> i.id, vis |-> VisRep(i.vis), at |-> AtRep(i.at), gen |-> ParamsRep(i.gen), args |-> OnlyIdents(i.gen), wh |-> ParamsRep(i.wh),
                      quals |-> i.quals, abi |-> IF i.abi = <<>> THEN <<>> ELSE <<IF i.abi[1] = "" THEN "\"C\"" ELSE i.abi[1]>>,
                      ps |-> [j \in 1..Len(i.ps) |-> ArgRep(i.ps[j])], ret |-> [j \in 1..Len(i.ret) |-> TypeRep(i.ret[j])], body |-> Plain0(i.body)]

----------------------------------------------------------------------------
\* flat tokens against expected ones, of which some may be missing
RECURSIVE Matches(_, _)
Matches(e, o) ==
  IF e = <<>> THEN o = <<>>
  ELSE LET h == Head(e) IN
    IF h.t = "maybe" THEN Matches(Tail(e), o) \/ (o # <<>> /\ Matches(Flat(<<h.m>>), <<Head(o)>>) /\ Matches(Tail(e), Tail(o)))
    ELSE /\ o # <<>> /\ h.t = Head(o).t
         /\ CASE h.t = "p" -> h.s = Head(o).s /\ (h.j => Head(o).j)
              [] h.t = "g" -> h.d = Head(o).d /\ Matches(h.b, Head(o).b)
              [] OTHER -> h.s = Head(o).s
         /\ Matches(Tail(e), Tail(o))
PrintsAs(i, obs) == Matches(Flat(ItemToks(i, "print")), obs) \/ Matches(Flat(ItemToks(i, "kinds")), obs)
=============================================================================
