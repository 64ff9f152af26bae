-------------------------------- MODULE JOps --------------------------------
(***************************************************************************)
(* The operations on a value: Apply(v, op) gives the new value and reply.   *)
(*                                                                          *)
(* Replies:  [ok |-> TRUE, v |-> value]     an element                      *)
(*           [ok |-> TRUE, l |-> values]    a list of values                *)
(*           [ok |-> TRUE]                  nothing to report               *)
(*           [ok |-> FALSE, e |-> kind]     an Err of that kind             *)
(*           [panic |-> TRUE]               the index operators, no element *)
(***************************************************************************)
EXTENDS JPath

Done == [ok |-> TRUE]
List(l) == [ok |-> TRUE, l |-> l]
Panics == [panic |-> TRUE]
Res(v, r) == [v |-> v, r |-> r]

\* the steps a path argument stands for: a string s or the steps p themselves
PathOf(op) == IF "s" \in DOMAIN op THEN ParsePath(op.s) ELSE [ok |-> TRUE, segs |-> op.p]

OpRead(v, op) ==
  LET p == PathOf(op) IN Res(v, IF p.ok THEN Find(v, p.segs) ELSE Failed("PathSyntaxError"))

\* write through the mutable reference found at the path
OpWrite(v, op) ==
  LET r == Find(v, op.p)
  IN  IF r.ok THEN Res(Overwrite(v, op.p, op.x), Found(op.x)) ELSE Res(v, r)

\* store x; when the operation carries y, y is then written through the returned reference
OpSet(v, op) ==
  LET p == PathOf(op)
  IN  IF ~p.ok THEN Res(v, Failed("PathSyntaxError"))
      ELSE LET u == Update(v, p.segs, op.x)
           IN  IF "y" \in DOMAIN op THEN Res(Overwrite(u, p.segs, op.y), Found(op.x))
               ELSE Res(u, Found(op.x))

OpDel(v, op) ==
  LET p == PathOf(op)
  IN  IF ~p.ok THEN Res(v, Failed("PathSyntaxError"))
      ELSE LET r == Find(v, p.segs) IN IF r.ok THEN Res(TakeOut(v, p.segs), r) ELSE Res(v, r)

OpIndex(v, op) == LET r == Find(v, op.p) IN Res(v, IF r.ok THEN r ELSE Panics)
OpIndexWrite(v, op) ==
  LET r == Find(v, op.p) IN IF r.ok THEN Res(Overwrite(v, op.p, op.x), Done) ELSE Res(v, Panics)

OpInsert(v, op) == IF v.t = "obj" THEN Res(JObj(PutOnly(v.m, op.k, op.x)), Done)
                   ELSE Res(v, Failed("InvalidValueKind"))
OpAppend(v, op) == IF v.t = "obj" THEN Res(JObj(PutAppend(v.m, op.k, op.x)), Done)
                   ELSE Res(v, Failed("InvalidValueKind"))
OpDelete(v, op) == IF v.t = "obj" THEN Res(JObj(RemoveKey(v.m, op.k)), Done)
                   ELSE Res(v, Failed("InvalidValueKind"))
OpMerge(v, op)  == IF v.t # "obj" THEN Res(v, Failed("InvalidValueKind"))
                   ELSE IF HasKey(v.m, op.k) THEN Res(v, List(ValuesOf(v.m, op.k)))
                   ELSE Res(v, Failed("MissingKey"))
OpPush(v, op)   == IF v.t = "arr" THEN Res(JArr(Append(v.a, op.x)), Done)
                   ELSE Res(v, Failed("InvalidValueKind"))
OpReplace(v, op) == IF v.t # "arr" THEN Res(v, Failed("InvalidValueKind"))
                    ELSE IF op.i >= Len(v.a) THEN Res(v, Failed("IndexOutOfRange"))
                    ELSE Res(JArr([v.a EXCEPT ![op.i + 1] = op.x]), Done)
OpRemove(v, op) == IF v.t # "arr" THEN Res(v, Failed("InvalidValueKind"))
                   ELSE IF op.i >= Len(v.a) THEN Res(v, Failed("IndexOutOfRange"))
                   ELSE Res(JArr(ArrRemove(v.a, op.i)), Done)

Apply(v, op) ==
  CASE op.o \in {"get", "find"}     -> OpRead(v, op)
    [] op.o \in {"set", "update"}   -> OpSet(v, op)
    [] op.o \in {"del", "discard"}  -> OpDel(v, op)
    [] op.o = "find_mut"            -> OpWrite(v, op)
    [] op.o = "index"               -> OpIndex(v, op)
    [] op.o = "index_mut"           -> OpIndexWrite(v, op)
    [] op.o = "insert"              -> OpInsert(v, op)
    [] op.o = "append"              -> OpAppend(v, op)
    [] op.o = "delete"              -> OpDelete(v, op)
    [] op.o = "merge"               -> OpMerge(v, op)
    [] op.o = "push"                -> OpPush(v, op)
    [] op.o = "replace"             -> OpReplace(v, op)
    [] op.o = "remove"              -> OpRemove(v, op)
    [] op.o = "print"               -> Res(v, [ok |-> TRUE, s |-> ToText(v)])
    [] op.o = "reparse"             -> Res(Normalize(v), Done)
=============================================================================
