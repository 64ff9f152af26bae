------------------------------- MODULE MCPart -------------------------------
(***************************************************************************)
(* The parts of the items of MCItem, and lists of types to be cut.          *)
(***************************************************************************)
EXTENDS MCItem, JPart

\* a part is printed as it may be in the item
Prints(p, obs) == Matches(Flat(PartToks(p, "print")), obs) \/ Matches(Flat(PartToks(p, "kinds")), obs)
PartInv == \A p \in Parts(item) : (p.k = "fields" /\ p.a.k = "none") \/ Prints(p, Flat(PartToks(p, "source")))
\* the report of an item is made of those of its parts
WholeInv == \A p \in Parts(item) :
  /\ p.k = "generics" => Report(item).gen = <<PartRep(p).ps>> /\ Report(item).args = PartRep(p).args
  /\ p.k = "where" => Report(item).wh = <<PartRep(p).ps>>
  /\ (p.k = "fields" /\ item.k = "struct") => Report(item).body = PartRep(p)
  /\ p.k = "values" => Report(item).vs = PartRep(p)
  /\ p.k = "params" => Report(item).ps = PartRep(p)
  /\ (p.k = "meta" /\ p.a = item.at) => Report(item).at = <<PartRep(p)>>
\* (each part with its tokens)
EmitParts == (n >= Skip) => PrintT(ToJson([parts |-> {[p |-> p, toks |-> PartToks(p, "source") \o p.rest] : p \in Parts(item)}]))

Seps == {<<",">>, <<"+">>, <<"=">>, <<":", ":">>, <<"=", ">">>, <<"|">>, <<"|", "|", "|">>}
CutPool == {N("u8"), Tuple2, Array, FnTr, FnPtr, RefT("a", TRUE, N("str")), G("Map", <<N("u8"), G("Vec", <<G("Option", <<N("T")>>)>>)>>), NameT(Std("io"), "Error", <<>>),
            G("Iterator", <<Assoc("Item", NameT(Std("vec"), "Vec", <<N("u8")>>))>>), G("Box", <<[k |-> "dyn", b |-> <<FnTr, N("B")>>]>>), LtT("a")}
\* for the cuts, item is a list of types
InitCut == item = <<>> /\ n = 0
NextCut == n < MaxParts /\ n' = n + 1 /\ \E t \in CutPool : item' = Append(item, t)
SpecCut == InitCut /\ [][NextCut]_vars
EmitCuts == \A sep \in Seps : \A tr \in BOOLEAN :
  (n > 0 /\ \A j \in 1..n : Uncut(item[j], sep)) => PrintT(ToJson([parts |-> {[p |-> [k |-> "cut", sep |-> sep, ts |-> item, tr |-> tr], toks |-> CutToks(sep, item, tr)]}]))
=============================================================================
