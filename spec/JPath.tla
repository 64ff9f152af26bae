-------------------------------- MODULE JPath -------------------------------
(***************************************************************************)
(* Path strings, as a machine over characters, and what a path addresses.   *)
(* A step is [w |-> "key", k |-> Text] or [w |-> "idx", i |-> Nat]; an      *)
(* index beyond IdxCap is kept as IdxCap: it is beyond every array here.    *)
(* The steps IdxCap + 1, IdxCap + 2, .. stand for the indices in Far.       *)
(***************************************************************************)
EXTENDS JPrint

Key(k) == [w |-> "key", k |-> k]
Idx(i) == [w |-> "idx", i |-> i]
IdxCap == 1000000
Far == << <<50,49,52,55,52,56,51,54,52,56>>, <<52,50,57,52,57,54,55,50,57,54>>, <<52,50,57,52,57,54,55,50,57,55>>,
          <<56,53,56,57,57,51,52,53,57,50>>, <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>,
          <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,57>>, <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>> >>

\* 2^64 - 1, the largest index
MaxIndex == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>

\* the value of a short digit sequence
SmallVal(d) == FoldLeft(LAMBDA acc, x : acc * 10 + x, 0, d)

PathStart == [buf |-> <<>>, esc |-> FALSE, segs |-> <<>>, bad |-> FALSE]

\* the step a segment stands for, or a syntax error
Segment(buf) ==
  IF buf # <<>> /\ buf[1] = 35
  THEN LET ds == Tail(buf) IN
       IF ds = <<>> \/ \E i \in 1..Len(ds) : ds[i] \notin 48..57 THEN [bad |-> TRUE]
       ELSE LET z == LeadingZeros([i \in 1..Len(ds) |-> ds[i] - 48], 1)
                d == [i \in 1..(Len(ds) - z) |-> ds[z + i] - 48]
            IN  IF Len(d) > 20 \/ (Len(d) = 20 /\ DigitsCmp(d, MaxIndex, 1) > 0) THEN [bad |-> TRUE]
                ELSE [bad |-> FALSE,
                      seg |-> Idx(IF Len(d) > 6 THEN IdxCap ELSE SmallVal(d))]
  ELSE IF buf # <<>> /\ buf[1] = 92 THEN [bad |-> FALSE, seg |-> Key(Tail(buf))]
  ELSE [bad |-> FALSE, seg |-> Key(buf)]

EndSegment(p) ==
  LET s == Segment(p.buf)
  IN  IF s.bad THEN [p EXCEPT !.bad = TRUE]
      ELSE [p EXCEPT !.buf = <<>>, !.segs = Append(@, s.seg)]

PathPlain(p, ch) ==
  CASE ch = 46 -> EndSegment(p)
    [] ch = 92 -> [p EXCEPT !.esc = TRUE]
    [] OTHER   -> [p EXCEPT !.buf = Append(@, ch)]

PathStep(p, ch) ==
  IF p.bad THEN p
  ELSE IF ~p.esc THEN PathPlain(p, ch)
  ELSE IF ch = 46 THEN [p EXCEPT !.buf = Append(@, 46), !.esc = FALSE]
  ELSE PathPlain([p EXCEPT !.buf = Append(@, 92), !.esc = FALSE], ch)

PathFinish(p) ==
  IF p.bad THEN p ELSE EndSegment(IF p.esc THEN [p EXCEPT !.buf = Append(@, 92), !.esc = FALSE] ELSE p)

\* [ok |-> TRUE, segs] or [ok |-> FALSE]
ParsePath(s) ==
  IF s = <<>> THEN [ok |-> FALSE]
  ELSE LET p == PathFinish(FoldLeft(PathStep, PathStart, s))
       IN  IF p.bad THEN [ok |-> FALSE] ELSE [ok |-> TRUE, segs |-> p.segs]

----------------------------------------------------------------------------
(* The way to write a path.  A key before the end of a path whose text ends *)
(* with "\" cannot be written: "\." always stands for a dot.                *)
DigitsOf(n) == LET F[m \in Nat] == IF m < 10 THEN <<48 + m>> ELSE F[m \div 10] \o <<48 + (m % 10)>> IN F[n]
WriteSeg(seg) ==
  IF seg.w = "idx" THEN <<35>> \o (IF seg.i > IdxCap THEN Far[seg.i - IdxCap] ELSE DigitsOf(seg.i))
  ELSE LET body == FoldLeft(LAMBDA acc, ch : acc \o (IF ch = 46 THEN <<92, 46>> ELSE <<ch>>), <<>>, seg.k)
       IN  IF seg.k # <<>> /\ seg.k[1] \in {35, 92} THEN <<92>> \o body ELSE body
RECURSIVE WriteFrom(_, _)
WriteFrom(segs, i) ==
  WriteSeg(segs[i]) \o (IF i = Len(segs) THEN <<>> ELSE <<46>> \o WriteFrom(segs, i + 1))
WritePath(segs) == WriteFrom(segs, 1)
Writable(segs) ==
  /\ segs # <<>>
  /\ segs # <<Key(<<>>)>>
  /\ \A i \in 1..(Len(segs) - 1) :
       segs[i].w = "key" /\ segs[i].k # <<>> => Last(segs[i].k) # 92

----------------------------------------------------------------------------
Found(v)   == [ok |-> TRUE, v |-> v]
Failed(e)  == [ok |-> FALSE, e |-> e]

\* one step of reading
Look(v, seg) ==
  IF seg.w = "key"
  THEN IF v.t # "obj" THEN Failed("InvalidValueKind")
       ELSE IF ~HasKey(v.m, seg.k) THEN Failed("MissingKey")
       ELSE Found(Last(ValuesOf(v.m, seg.k)))
  ELSE IF v.t # "arr" THEN Failed("InvalidValueKind")
       ELSE IF seg.i >= Len(v.a) THEN Failed("IndexOutOfRange")
       ELSE Found(v.a[seg.i + 1])

RECURSIVE Find(_, _)
Find(v, segs) ==
  IF segs = <<>> THEN Found(v)
  ELSE LET r == Look(v, Head(segs)) IN IF r.ok THEN Find(r.v, Tail(segs)) ELSE r

\* v with the element that Look finds replaced by x
PutAt(v, seg, x) ==
  IF seg.w = "key"
  THEN JObj(PutValues(v.m, seg.k, Append(Front(ValuesOf(v.m, seg.k)), x)))
  ELSE JArr([v.a EXCEPT ![seg.i + 1] = x])

\* v with x stored at seg, changing the kind of v when needed
Store(v, seg, x) ==
  IF seg.w = "key"
  THEN JObj(PutOnly(IF v.t = "obj" THEN v.m ELSE <<>>, seg.k, x))
  ELSE JArr([PadTo(IF v.t = "arr" THEN v.a ELSE <<>>, seg.i + 1) EXCEPT ![seg.i + 1] = x])

RECURSIVE Update(_, _, _)
Update(v, segs, x) ==
  LET seg == Head(segs) IN
  IF Len(segs) = 1 THEN Store(v, seg, x)
  ELSE LET r == Look(v, seg) IN
       IF r.ok THEN PutAt(v, seg, Update(r.v, Tail(segs), x))
       ELSE Store(v, seg, Update(JNull, Tail(segs), x))

\* write x over the element that reading finds
RECURSIVE Overwrite(_, _, _)
Overwrite(v, segs, x) ==
  IF segs = <<>> THEN x
  ELSE LET r == Look(v, Head(segs)) IN PutAt(v, Head(segs), Overwrite(r.v, Tail(segs), x))

\* remove the element that reading finds (only when it is found)
RECURSIVE TakeOut(_, _)
TakeOut(v, segs) ==
  LET seg == Head(segs) IN
  IF Len(segs) > 1 THEN PutAt(v, seg, TakeOut(Look(v, seg).v, Tail(segs)))
  ELSE IF seg.w = "key" THEN JObj(RemoveKey(v.m, seg.k))
  ELSE JArr(ArrRemove(v.a, seg.i))
=============================================================================
