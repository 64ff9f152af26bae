-------------------------------- MODULE JDoc --------------------------------
(***************************************************************************)
(* A JSON value under operations, as a state machine.                       *)
(*                                                                          *)
(* doc is the value, op the last operation, pre the value before it and     *)
(* reply what it answered.  The properties below are stated about single    *)
(* steps, in terms of what can be read, independently of how JOps defines   *)
(* the operations.                                                          *)
(***************************************************************************)
EXTENDS JConform, TLC

CONSTANTS Universe,    \* the initial values
          OpsOf(_),    \* the operations tried on a value
          MaxOps       \* the length of histories

VARIABLES doc, pre, op, reply, n
vars == <<doc, pre, op, reply, n>>

NoOp == [o |-> "none"]
Init == /\ doc \in Universe
        /\ pre = doc /\ op = NoOp /\ reply = Done /\ n = 0
Next == /\ n < MaxOps
        /\ \E o \in OpsOf(doc) :
             LET a == Apply(doc, o) IN
             /\ doc' = a.v /\ reply' = a.r /\ pre' = doc /\ op' = o /\ n' = n + 1
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What the steps of a path stand for, and locations *)

Stepped == op # NoOp
Ok == "ok" \in DOMAIN reply /\ reply.ok
OnPath == "p" \in DOMAIN op \/ "s" \in DOMAIN op
P == PathOf(op)


\* all locations of a value, as paths
RECURSIVE Locs(_)
Locs(v) ==
  {<<>>} \cup
  (CASE v.t = "arr" -> UNION {{<<Idx(i - 1)>> \o q : q \in Locs(v.a[i])} : i \in 1..Len(v.a)}
     [] v.t = "obj" -> UNION {{<<Key(v.m[i][1])>> \o q : q \in Locs(Last(v.m[i][2]))} : i \in 1..Len(v.m)}
     [] OTHER -> {})

\* where p and q part (they are not prefixes of each other)
Fork(p, q) == CHOOSE i \in 1..Len(p) : p[i] # q[i] /\ \A j \in 1..(i - 1) : p[j] = q[j]
Compatible(v, seg) == v.t = (IF seg.w = "key" THEN "obj" ELSE "arr")

----------------------------------------------------------------------------
(* The properties of single steps *)

Readers  == {"get", "find", "index", "merge", "print"}
Writers  == {"set", "update"}
Takers   == {"del", "discard"}
Mutators == {"find_mut", "index_mut"}

\* values stay well formed
TypeInv == WellFormed(doc)

\* J08, J14: reading changes nothing, nor does a failing operation
ReadFrame == Stepped /\ op.o \in Readers => doc = pre
FailFrame == Stepped /\ ~Ok => doc = pre

\* J08: the reply is the element, or the error of the first failing step
ReadAnswer ==
  Stepped /\ op.o \in {"get", "find", "index"} /\ P.ok =>
    LET found == P.segs \in Locs(pre)
        \* the longest part of the path that can be read
        k == CHOOSE k \in 0..Len(P.segs) :
               /\ SubSeq(P.segs, 1, k) \in Locs(pre)
               /\ k < Len(P.segs) => SubSeq(P.segs, 1, k + 1) \notin Locs(pre)
        at == Find(pre, SubSeq(P.segs, 1, k)).v
    IN  IF found THEN Ok /\ Locs(reply.v) = {SubSeq(q, Len(P.segs) + 1, Len(q)) : q \in {q \in Locs(pre) : IsPrefix(P.segs, q)}}
        ELSE IF op.o = "index" THEN reply = Panics
        ELSE reply = Failed(IF ~Compatible(at, P.segs[k + 1]) THEN "InvalidValueKind"
                            ELSE IF at.t = "obj" THEN "MissingKey" ELSE "IndexOutOfRange")

\* J09: the path reads what was stored; a stored key has only that value
SetGet == Stepped /\ op.o \in Writers /\ P.ok =>
  /\ Ok /\ reply.v = op.x
  /\ Find(doc, P.segs) = Found(IF "y" \in DOMAIN op THEN op.y ELSE op.x)
  /\ LET at == Find(doc, Front(P.segs)).v l == Last(P.segs)
     IN /\ Compatible(at, l)
        /\ l.w = "key" => Len(ValuesOf(at.m, l.k)) = 1

\* J09: array padding is null and nothing more than needed is added
SetPad == Stepped /\ op.o \in Writers /\ P.ok =>
  \A k \in 1..Len(P.segs) : P.segs[k].w = "idx" =>
    LET q == SubSeq(P.segs, 1, k - 1)
        new == Find(doc, q).v
        old == Find(pre, q)
        l0 == IF old.ok /\ old.v.t = "arr" THEN Len(old.v.a) ELSE 0
        i == P.segs[k].i
    IN  /\ Len(new.a) = (IF l0 > i + 1 THEN l0 ELSE i + 1)
        /\ \A j \in (l0 + 1)..Len(new.a) : j # i + 1 => new.a[j] = JNull

\* J09, J20: every location that parts from the path keeps its value, unless a container on
\* the path had the wrong kind; so do the earlier values of repeated keys on the way
Elsewhere(p, last) ==
  /\ \A q \in Locs(pre) : ~IsPrefix(p, q) /\ ~IsPrefix(q, p) =>
       LET i == Fork(p, q) IN
       Compatible(Find(pre, SubSeq(p, 1, i - 1)).v, p[i]) => Find(doc, q) = Find(pre, q)
  /\ \A k \in 1..last : p[k].w = "key" =>
       LET a == Find(pre, SubSeq(p, 1, k - 1)) IN
       a.ok /\ a.v.t = "obj" /\ HasKey(a.v.m, p[k].k) =>
         Front(ValuesOf(Find(doc, SubSeq(p, 1, k - 1)).v.m, p[k].k)) = Front(ValuesOf(a.v.m, p[k].k))
SetFrame == Stepped /\ op.o \in Writers /\ P.ok => Elsewhere(P.segs, Len(P.segs) - 1)
\* nothing appears but the path itself and padding
SetNew == Stepped /\ op.o \in Writers /\ P.ok =>
  \A q \in Locs(doc) : \/ q \in Locs(pre) \/ IsPrefix(P.segs, q) \/ IsPrefix(q, P.segs)
                       \/ Find(doc, q) = Found(JNull) /\ Last(q).w = "idx"

\* J20: writing through a mutable reference
MutAnswer == Stepped /\ op.o \in Mutators =>
  IF op.p \in Locs(pre)
  THEN Ok /\ Find(doc, op.p) = Found(op.x) /\ Elsewhere(op.p, Len(op.p))
  ELSE ~Ok /\ doc = pre

\* J10: del answers what was read, takes out just that
DelAnswer == Stepped /\ op.o \in Takers /\ P.ok =>
  LET p == P.segs IN
  /\ Ok <=> p \in Locs(pre)
  /\ reply = Find(pre, p)
  /\ Ok => LET at == Find(pre, Front(p)).v now == Find(doc, Front(p)).v l == Last(p) IN
       /\ IF l.w = "key" THEN /\ ~HasKey(now.m, l.k)
                              /\ \A i \in 1..Len(at.m) : at.m[i][1] # l.k => ValuesOf(now.m, at.m[i][1]) = at.m[i][2]
                              /\ Len(now.m) = Len(at.m) - 1
          ELSE /\ Len(now.a) = Len(at.a) - 1
               /\ \A i \in 1..Len(now.a) : now.a[i] = at.a[IF i > l.i THEN i + 1 ELSE i]
       /\ \A q \in Locs(pre) : ~IsPrefix(Front(p), q) /\ ~IsPrefix(q, p) => Find(doc, q) = Find(pre, q)
       /\ \A k \in 1..(Len(p) - 1) : p[k].w = "key" =>
            LET a == Find(pre, SubSeq(p, 1, k - 1)).v b == Find(doc, SubSeq(p, 1, k - 1)).v
            IN Front(ValuesOf(b.m, p[k].k)) = Front(ValuesOf(a.m, p[k].k))

\* J12, J13: operations on one member or element
Values(v, k) == IF v.t = "obj" THEN ValuesOf(v.m, k) ELSE <<>>
KeysOf(v) == IF v.t = "obj" THEN {v.m[i][1] : i \in 1..Len(v.m)} ELSE {}
OtherKeys == \A k \in (KeysOf(pre) \cup KeysOf(doc)) \ {op.k} : Values(doc, k) = Values(pre, k)
LocalAnswer == Stepped =>
  CASE op.o \in {"insert", "append", "delete"} ->
         IF pre.t # "obj" THEN reply = Failed("InvalidValueKind")
         ELSE /\ Ok /\ doc.t = "obj" /\ OtherKeys
              /\ Values(doc, op.k) = (IF op.o = "insert" THEN <<op.x>>
                                      ELSE IF op.o = "append" THEN Append(Values(pre, op.k), op.x) ELSE <<>>)
    [] op.o = "merge" ->
         reply = (IF pre.t # "obj" THEN Failed("InvalidValueKind")
                  ELSE IF op.k \notin KeysOf(pre) THEN Failed("MissingKey") ELSE List(Values(pre, op.k)))
    [] op.o \in {"push", "replace", "remove"} ->
         IF pre.t # "arr" THEN reply = Failed("InvalidValueKind")
         ELSE IF op.o # "push" /\ op.i >= Len(pre.a) THEN reply = Failed("IndexOutOfRange")
         ELSE /\ Ok /\ doc.t = "arr"
              /\ Len(doc.a) = Len(pre.a) + (CASE op.o = "push" -> 1 [] op.o = "remove" -> -1 [] OTHER -> 0)
              /\ \A j \in 1..Len(doc.a) :
                   doc.a[j] = (CASE op.o = "push" -> IF j > Len(pre.a) THEN op.x ELSE pre.a[j]
                                 [] op.o = "replace" -> IF j = op.i + 1 THEN op.x ELSE pre.a[j]
                                 [] op.o = "remove" -> IF j > op.i THEN pre.a[j + 1] ELSE pre.a[j])
    [] OTHER -> TRUE

\* J12: the value of a key is the latest of its values; writing them all out and reading them keeps them
LatestInv == \A k \in KeysOf(doc) :
  /\ Find(doc, <<Key(k)>>) = Found(Last(Values(doc, k)))
  /\ Values(ParseText(ToText(doc)).v, k) = Values(Normalize(doc), k)
=============================================================================
