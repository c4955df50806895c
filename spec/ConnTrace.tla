------------------------------ MODULE ConnTrace ------------------------------
(* Judges what the drivers were given (kind "given") and what sessions the   *)
(* engines report (kind "live").                                             *)
EXTENDS Conn, Json, IOUtils
Batch == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc
S == Batch[sc]
Bad == IF S.kind = "given" THEN ConnBad(S.case, S.seen)
       ELSE (IF S.ok THEN {} ELSE {"conn.refused"}) \cup SessionsBad(S.want, S.seen)
Init == sc = 1
Next == /\ sc <= Len(Batch)
        /\ PrintT("VERDICT " \o ToJson([id |-> S.id, bad |-> Bad]))
        /\ sc' = sc + 1
Spec == Init /\ [][Next]_sc
=============================================================================
