-------------------------------- MODULE MCDoc -------------------------------
(* Values and operations for JDoc, and the vectors for the crate *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS Family,      \* which operations
          Docs,        \* which values
          MaxLen,      \* path length
          Rounds,      \* MaxOps
          Vias,        \* forms of a call, 0: one chosen per case
          OnlyFail     \* emit only failing steps, followed by further use

VARIABLES doc, pre, op, reply, n

N1 == [t |-> "num", n |-> [neg |-> FALSE, d |-> <<1>>, e |-> 0]]
N2 == [t |-> "num", n |-> [neg |-> TRUE, d |-> <<2, 5>>, e |-> 0]]
N7 == [t |-> "num", n |-> [neg |-> FALSE, d |-> <<7>>, e |-> 0]]
S  == [t |-> "str", s |-> <<115>>]
NL == [t |-> "null"]
A(s) == [t |-> "arr", a |-> s]
O(m) == [t |-> "obj", m |-> m]
ka == <<97>>
kb == <<98>>
kc == <<99>>
ke == <<>>

Tup(X, k) == [1..k -> X]
Leaves == {NL, N1, S}
\* an object with values va of key a and vb of key b; <<>> is an absent key
AB(va, vb) == O((IF va = <<>> THEN <<>> ELSE <<<<ka, va>>>>) \o (IF vb = <<>> THEN <<>> ELSE <<<<kb, vb>>>>))
L1a == {A(<<>>)} \cup {A(s) : s \in Tup(Leaves, 1)} \cup {A(s) : s \in Tup(Leaves, 2)}
V1 == {<<>>, <<N1>>, <<S>>, <<N1, NL>>, <<NL, S>>}
L1o == {AB(x, y) : x \in V1, y \in V1}
Kids == {N1, NL, A(<<>>), A(<<N1>>), A(<<S, NL>>), O(<<>>), AB(<<N1>>, <<>>), AB(<<>>, <<S, N1>>), AB(<<A(<<S>>)>>, <<N2>>)}
L2a == {A(s) : s \in Tup(Kids, 1)} \cup {A(s) : s \in Tup(Kids, 2)}
V2a == {<<>>} \cup {<<k>> : k \in Kids} \cup {<<k, N1>> : k \in Kids} \cup {<<N2, k>> : k \in Kids}
V2b == {<<>>, <<N1>>, <<A(<<N1, S>>)>>, <<S, O(<<>>)>>, <<NL, AB(<<N1, S>>, <<>>), A(<<NL>>)>>}
L2o == {AB(x, y) : x \in V2a, y \in V2b}
L3 == {A(<<A(<<A(<<N1>>)>>)>>), AB(<<AB(<<AB(<<N1, S>>, <<>>), AB(<<S, N1, NL>>, <<N1>>)>>, <<>>)>>, <<>>),
       AB(<<A(<<AB(<<>>, <<N1>>), N1>>)>>, <<A(<<A(<<S>>), A(<<>>)>>)>>),
       AB(<<N1, AB(<<N2, AB(<<S>>, <<>>)>>, <<>>)>>, <<NL, AB(<<N2, A(<<N1>>)>>, <<>>)>>),
       A(<<AB(<<A(<<N1, S>>)>>, <<>>), AB(<<A(<<NL>>), A(<<AB(<<N1>>, <<>>), S>>)>>, <<>>)>>),
       O(<<<<ke, <<N1, O(<<<<ke, <<S>>>>, <<ka, <<N2>>>>>>)>>>>, <<ka, <<O(<<<<ke, <<A(<<N1>>)>>>>>>)>>>>>>)}
Dups == {AB(x, y) : x \in {<<>>, <<N1>>, <<N1, S>>, <<S, N1, NL>>}, y \in {<<>>, <<S>>, <<NL, N1>>, <<N1, S, AB(<<N1, N2>>, <<>>)>>}}

UniverseOf ==
  CASE Docs = "all"   -> Leaves \cup L1a \cup L1o \cup L2a \cup L2o \cup L3
    [] Docs = "small" -> Leaves \cup L1a \cup L1o \cup L3
    [] Docs = "mid"   -> Leaves \cup L1a \cup L1o \cup L3 \cup {A(s) : s \in Tup(Kids, 1)} \cup {AB(x, y) : x \in V2a, y \in {<<>>, <<S, O(<<>>)>>}}
    [] Docs = "dups"  -> Dups
    [] Docs = "empty" -> {O(<<>>), A(<<>>), NL}

----------------------------------------------------------------------------
K(k) == [w |-> "key", k |-> k]
I(i) == [w |-> "idx", i |-> i]
StepSet == IF Docs = "dups" THEN {K(ka), K(kb), I(0)} ELSE {K(ka), K(kb), K(ke), I(0), I(1), I(3)}
Paths == UNION {Tup(StepSet, k) : k \in 1..MaxLen}

WriteP(p) == INSTANCE JPath
PathText(p) == WriteP(p)!WritePath(p)
WritableP(p) == WriteP(p)!Writable(p)

\* the form of the call: spread over the cases
Salt(p) == 7 * Len(p) + (IF p[1].w = "key" THEN Len(p[1].k) * 3 + 1 ELSE p[1].i % 1000)
             + (IF p[Len(p)].w = "key" THEN 2 * Len(p[Len(p)].k) ELSE 5 * (p[Len(p)].i % 1000))
Forms(p, k) == IF Vias = 0 THEN {Salt(p) % k} ELSE 0..(k - 1)
WP == {p \in Paths : WritableP(p)}
\* paths with an index beyond everything (1000000 is IdxCap of JPath)
FarSteps == {I(256), I(65536)} \cup {I(1000000 + k) : k \in 0..7}
FarPaths == IF Docs = "dups" THEN {} ELSE
            {<<f>> : f \in FarSteps} \cup {<<f, s>> : f \in FarSteps, s \in {K(ka), I(0)}} \cup {<<s, f>> : f \in FarSteps, s \in StepSet}
FarWP == {p \in FarPaths : WritableP(p)}

Objs == {AB(<<N7>>, <<>>)}
Reads(p) == {[o |-> "find", p |-> p, via |-> v] : v \in Forms(p, 8)}
             \cup {[o |-> "index", p |-> p, via |-> Salt(p)]}
GetS(p)  == {[o |-> "get", s |-> PathText(p)]}
Sets(p)  == {[o |-> "set", s |-> PathText(p), x |-> N7, via |-> Salt(p)]}
Upds(p)  == {[o |-> "update", p |-> p, x |-> AB(<<N7>>, <<>>), via |-> v] : v \in Forms(p, 8)}
SetY(p)  == {[o |-> "set", s |-> PathText(p), x |-> N7, y |-> A(<<S>>), via |-> Salt(p)]}
UpdY(p)  == {[o |-> "update", p |-> p, x |-> N7, y |-> AB(<<>>, <<S>>), via |-> v] : v \in Forms(p, 8)}
Dels(p)  == {[o |-> "del", s |-> PathText(p)]}
Diss(p)  == {[o |-> "discard", p |-> p, via |-> v] : v \in Forms(p, 6)}
Muts(p)  == {[o |-> "find_mut", p |-> p, x |-> S, via |-> v] : v \in Forms(p, 2)}
             \cup {[o |-> "index_mut", p |-> p, x |-> AB(<<N7>>, <<>>), via |-> Salt(p)]}
BadS == {<<>>, <<35>>, <<35, 97>>, <<97, 46, 35>>, <<35, 48, 46, 35, 45, 49>>, <<98, 46, 35, 120, 46, 97>>, <<35, 49, 98>>}
BadPaths == UNION {{[o |-> "get", s |-> s], [o |-> "set", s |-> s, x |-> N7, via |-> 0], [o |-> "del", s |-> s]} : s \in BadS}

LKeys == {ka, kb, kc, ke}
LIdx == 0..4 \cup {f.i : f \in FarSteps}
Xs == {N7, AB(<<N1, N7>>, <<>>), A(<<>>)}
KeyOps(v) == {[o |-> o, k |-> k, x |-> x, via |-> v] : o \in {"insert", "append"}, k \in LKeys, x \in Xs}
Local == KeyOps(0) \cup KeyOps(1) \cup KeyOps(2)
         \cup {[o |-> o, k |-> k] : o \in {"delete", "merge"}, k \in LKeys}
         \cup {[o |-> "push", x |-> x] : x \in Xs}
         \cup {[o |-> "replace", i |-> i, x |-> x] : i \in LIdx, x \in Xs}
         \cup {[o |-> "remove", i |-> i] : i \in LIdx}
DupOps == {[o |-> o, k |-> k, x |-> N7, via |-> 0] : o \in {"insert", "append"}, k \in {ka, kb}}
         \cup {[o |-> o, k |-> k] : o \in {"delete", "merge"}, k \in {ka, kb}}
         \cup {[o |-> "reparse"], [o |-> "print"]}
         \cup UNION {GetS(p) \cup Sets(p) \cup UpdY(p) \cup Dels(p) \cup Diss(p) \cup Muts(p) : p \in WP}
         \cup UNION {Reads(p) : p \in Tup(StepSet, 1)}

Tries(d) ==
  CASE Family = "read"   -> UNION {Reads(p) : p \in Paths \cup FarPaths} \cup UNION {GetS(p) : p \in WP \cup FarWP}
    [] Family = "write"  -> UNION {Sets(p) : p \in WP} \cup UNION {Upds(p) : p \in Paths}
    [] Family = "take"   -> UNION {Dels(p) : p \in WP \cup FarWP} \cup UNION {Diss(p) : p \in Paths \cup FarPaths}
    [] Family = "mut"    -> UNION {Muts(p) : p \in FarPaths} \cup UNION {Muts(p) \cup UpdY(p) : p \in Paths} \cup UNION {SetY(p) : p \in WP}
    [] Family = "macro"  -> UNION {Reads(p) \cup Upds(p) \cup Diss(p) \cup Muts(p) : p \in Paths}
    [] Family = "local"  -> Local
    [] Family = "dup"    -> DupOps
    [] Family = "fail"   -> Local \cup BadPaths \cup UNION {Reads(p) \cup Diss(p) \cup Muts(p) : p \in Paths \cup FarPaths}
                            \cup UNION {GetS(p) \cup Dels(p) : p \in WP \cup FarWP}

INSTANCE JDoc WITH Universe <- UniverseOf, OpsOf <- Tries, MaxOps <- Rounds

\* further use of a value after a failure
After == <<[o |-> "print"], [o |-> "update", p |-> <<K(kc), I(1)>>, x |-> N7, via |-> 0], [o |-> "print"]>>
Follow == IF OnlyFail THEN After ELSE <<>>
Emit ==
  IF op.o = "none" \/ (OnlyFail /\ Ok) THEN TRUE
  ELSE PrintT(ToJson([in |-> [k |-> "hist", v |-> pre, ops |-> <<op>> \o Follow],
                      exp |-> <<[r |-> reply, v |-> doc]>> \o RunOps(doc, Follow, 1)]))

\* the values themselves: their text, and the way back
EmitDoc ==
  IF op.o # "none" THEN TRUE
  ELSE /\ PrintT(ToJson([in |-> [k |-> "print", v |-> doc], exp |-> [s |-> ToText(doc)]]))
       /\ PrintT(ToJson([in |-> [k |-> "round", v |-> doc], exp |-> [ok |-> TRUE, v |-> Normalize(doc), same |-> TRUE]]))
=============================================================================
