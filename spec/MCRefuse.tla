------------------------------ MODULE MCRefuse ------------------------------
(***************************************************************************)
(* Declarations built up part by part: what is derived, the shape with its  *)
(* body, and for named fields one field after the other.                    *)
(***************************************************************************)
EXTENDS JDeclare, Json, TLC
CONSTANTS MaxF, Wide
VARIABLES d, st
vars == <<d, st>>

Derives == {"enc", "dec"}
Attrs == {"", "doc", "vis", "after", "gen"}      \* a doc comment, pub, another attribute after the derive, a type parameter
Bodies(shape) ==
  CASE shape = "tuple" -> {"empty", "one", "two", "trail", "pub", "key", "attr"}
    [] shape = "unit"  -> {"plain"}
    [] shape = "enum"  -> {"empty", "unit", "units", "trail", "tuple", "fields", "mixed", "disc", "key"}
    [] shape = "union" -> {"one", "two", "key"}
    [] OTHER -> {""}
\* spelled in the renderer
BadLits == {"int", "typed", "char", "bytes", "rawbytes", "byte", "true", "float", "hex", "minus", "concat"}
GoodLits == {"str", "raw", "hash", "none"}
F(k, l) == [k |-> k, l |-> l]
Plain == {F("plain", ""), F("good", "str"), F("ignored", "")}
Fine == IF Wide THEN Plain \cup {F("good", l) : l \in GoodLits} ELSE Plain
BadF == {F("bad", l) : l \in BadLits}

Init == d \in {[der |-> x, shape |-> s, body |-> "", at |-> a, fs |-> <<>>] : x \in Derives, s \in Shapes, a \in Attrs} /\ st = "shape"
Body == st = "shape" /\ st' = "fields" /\ \E b \in Bodies(d.shape) : d' = [d EXCEPT !.body = b]
Bad == \E i \in 1..Len(d.fs) : d.fs[i].k = "bad"
Field == /\ st = "fields" /\ d.shape = "named" /\ Len(d.fs) < (IF d.at = "" \/ Wide THEN MaxF ELSE 1)
         /\ \E f \in Fine \cup (IF Bad THEN {} ELSE BadF) : d' = [d EXCEPT !.fs = Append(@, f)]
         /\ UNCHANGED st
Next == Body \/ Field
Spec == Init /\ [][Next]_vars

\* once refused, no further field helps; and a shape without named fields is refused whatever is in it
OnceInv == (\E i \in 1..Len(d.fs) : Refused([d EXCEPT !.fs = SubSeq(d.fs, 1, i)])) => Refused(d)
ShapeInv == d.shape # "named" => Refused(d)
FineInv == d.shape = "named" /\ ~Bad => ~Refused(d)
Emit == st = "shape" \/ PrintT(ToJson([d |-> d, refused |-> Refused(d)]))
=============================================================================
