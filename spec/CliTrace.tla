------------------------------ MODULE CliTrace ------------------------------
(* Judges commands of the real program. *)
EXTENDS Cli, Json, IOUtils
Batch == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc
S == Batch[sc]
SetOf(s) == {s[i] : i \in DOMAIN s}
Case == [cmd |-> S.case.cmd, layers |-> [i \in DOMAIN S.case.layers |-> SetOf(S.case.layers[i])], faults |-> SetOf(S.case.faults),
         truncate |-> S.case.truncate, create |-> S.case.create, planset |-> S.case.planset]
Init == sc = 1
Next == /\ sc <= Len(Batch)
        /\ PrintT("VERDICT " \o ToJson([id |-> S.id, bad |-> CliBad(Case, S.seen)]))
        /\ sc' = sc + 1
Spec == Init /\ [][Next]_sc
=============================================================================
