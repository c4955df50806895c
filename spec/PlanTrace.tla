------------------------------ MODULE PlanTrace ------------------------------
(***************************************************************************)
(* Judges records of queries: what simplification made of them (simp), and *)
(* what the sampler wrote when given a plan document (exec).               *)
(***************************************************************************)
EXTENDS PlanLang, Json, IOUtils

Batch == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc
vars == <<sc>>
S == Batch[sc]

SimpBad == IF S.b = <<>> THEN {"simplify.failed"}
           ELSE (IF SameMeaning(S.S, S.X, S.a, S.b[1]) THEN {} ELSE {"simplify"})
                \cup (IF \E n \in DOMAIN S.runs : ~S.runs[n].ok THEN {"query.failed"} ELSE {})
                \cup (IF \E n \in DOMAIN S.runs : S.runs[n].ok /\ ~Denotes(S.S, S.X, S.runs[n].st, OutColsOf(S.S, S.runs[n].st), S.runs[n].rows)
                      THEN {"query.rows"} ELSE {})
ExecBad == IF ~S.ok THEN {"run.failed"}
           ELSE (IF \E t \in DOMAIN S.st : ~Denotes(S.S, S.rows, S.st[t], S.cols[t], S.rows[t]) THEN {"denotes"} ELSE {})
                \cup (IF S.extra # <<>> THEN {"extra"} ELSE {})
Bad == IF S.kind = "simp" THEN SimpBad ELSE ExecBad
Init == sc = 1
Next == /\ sc <= Len(Batch)
        /\ PrintT("VERDICT " \o ToJson([id |-> S.id, bad |-> Bad]))
        /\ sc' = sc + 1
Spec == Init /\ [][Next]_vars
=============================================================================
