------------------------------ MODULE JDeclare ------------------------------
(***************************************************************************)
(* Which declarations the derives refuse.  A declaration has a shape, and   *)
(* for a struct with named fields the fields with what is said about each:  *)
(*   plain    nothing          good  a key that is a string literal         *)
(*   ignored  left out         bad   a key that is something else           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Shapes == {"named", "tuple", "unit", "enum", "union"}
Refused(d) == d.shape # "named" \/ \E i \in 1..Len(d.fs) : d.fs[i].k = "bad"
=============================================================================
