------------------------------ MODULE TraceDoc ------------------------------
(***************************************************************************)
(* Validates recorded histories: every step of the crate must be a step of  *)
(* JDoc with the same reply and the same value afterwards, and the step     *)
(* properties of JDoc are evaluated on the recorded steps themselves.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES i, k, doc, pre, op, reply, n

INSTANCE JDoc WITH Universe <- {}, OpsOf <- LAMBDA d : {}, MaxOps <- 0

TInit == /\ i \in 1..Len(Cases) /\ k = 0 /\ n = 0
         /\ doc = Cases[i].v /\ pre = doc /\ op = NoOp /\ reply = Done
TStep == LET c == Cases[i] IN
  /\ k >= 0 /\ k < Len(c.ops)
  /\ LET obs == c.obs[k + 1]
         a == Apply(doc, c.ops[k + 1])
     IN  /\ op' = c.ops[k + 1] /\ pre' = doc /\ UNCHANGED <<i, n>>
         \* the observed value and reply become the state; k is negative when no step explains them
         /\ IF a.r = obs.r /\ a.v = obs.v THEN k' = k + 1 /\ doc' = a.v /\ reply' = a.r
            ELSE k' = -(k + 1) /\ doc' = doc /\ reply' = Done
TSpec == TInit /\ [][TStep]_<<i, k, doc, pre, op, reply, n>>

Accepted == k >= 0
Live == k > 0
StepProps == Live => TypeInv /\ ReadFrame /\ FailFrame /\ ReadAnswer /\ SetGet /\ SetPad /\ SetFrame /\ SetNew
                     /\ MutAnswer /\ DelAnswer /\ LocalAnswer
=============================================================================
