------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validates recorded scenarios against the specification.  One behaviour  *)
(* per batch: the events of each scenario are consumed in order, every one *)
(* of them totally, and the clauses it breaks are collected.               *)
(***************************************************************************)
EXTENDS Conform, Json, IOUtils

Batch == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc,      \* scenario being read
          run,     \* run being read, 0 = the plan
          pos,     \* observations of this run read so far
          dst,     \* the destination as last seen: table -> rows
          bad      \* clauses broken so far in this scenario
vars == <<sc, run, pos, dst, bad>>

S == Batch[sc]
R == S.runs[run]
Report(b) == PrintT("VERDICT " \o ToJson([id |-> S.id, bad |-> b]))

Init == sc = 1 /\ run = 0 /\ pos = 0 /\ bad = {} /\ dst = <<>>

PlanEvent ==
    /\ sc <= Len(Batch) /\ run = 0
    /\ LET b == PlanBad(S)
       IN IF Unusable(S) \/ Len(S.runs) = 0
          THEN /\ Report(b) /\ sc' = sc + 1 /\ run' = 0 /\ bad' = {} /\ dst' = <<>>
          ELSE /\ run' = 1 /\ bad' = b /\ sc' = sc /\ dst' = S.runs[1].dst0
    /\ pos' = 0

Observe ==
    /\ sc <= Len(Batch) /\ run > 0 /\ pos < Len(R.obs)
    /\ bad' = bad \cup (IF RunRefusal(S, R) = {} THEN LookBad(S, R, R.obs[pos + 1]) ELSE {})
    /\ dst' = R.obs[pos + 1]
    /\ pos' = pos + 1 /\ UNCHANGED <<sc, run>>

RunEnd ==
    /\ sc <= Len(Batch) /\ run > 0 /\ pos = Len(R.obs)
    /\ LET b == bad \cup RunBad(S, R)
       IN IF run = Len(S.runs)
          THEN /\ Report(b) /\ sc' = sc + 1 /\ run' = 0 /\ bad' = {} /\ dst' = <<>>
          ELSE /\ run' = run + 1 /\ bad' = b /\ sc' = sc /\ dst' = S.runs[run + 1].dst0
    /\ pos' = 0

Next == PlanEvent \/ Observe \/ RunEnd
Spec == Init /\ [][Next]_vars
=============================================================================
