-------------------------------- MODULE CliMC --------------------------------
(* A command is composed (files, options, faults) and then runs stage by     *)
(* stage.  Every composed command is printed to be realised against the code.*)
EXTENDS Cli, Json, SequencesExt
CONSTANTS MaxOptions, MaxFaults, Weight
VARIABLES cmd, layers, nopt, faults, flags, planset, pc, written, exit
vars == <<cmd, layers, nopt, faults, flags, planset, pc, written, exit>>

At(p, v) == [p |-> p, v |-> v]
Base == {At(<<"source", "dialect">>, "sqlite"), At(<<"source", "database">>, "A"), At(<<"planner", "select">>, "all"),
         At(<<"planner", "targets", "main.u", "all">>, "yes"), At(<<"planner", "targets", "main.t", "in", "id">>, "S1")}
ToDir(d) == {At(OUT \o <<"mode">>, "directory"), At(OUT \o <<"directory">>, d)}
ToDb(d) == {At(OUT \o <<"mode">>, "database"), At(OUT \o <<"dialect">>, "sqlite"), At(OUT \o <<"database">>, d)}
Options == {{At(<<"source", "database">>, "A")}, {At(<<"source", "database">>, "B")},
            {At(<<"planner", "targets", "main.t", "in", "id">>, "S1")}, {At(<<"planner", "targets", "main.t", "in", "id">>, "S2")},
            ToDir("d1"), ToDir("d2"), ToDb("D1"), ToDb("D2"), {At(OUT \o <<"directory">>, "d2")}, {At(OUT \o <<"database">>, "D2")},
            {At(<<"sampler", "compact", "primary_keys">>, "yes")}, {At(<<"sampler", "compact", "primary_keys">>, "no")},
            {At(<<"sampler", "compact", "start_key">>, "five")}, {At(<<"sampler", "compact", "start_key">>, "nine")},
            {At(<<"sampler", "compact", "start_key">>, "bad")}, {At(<<"sampler", "compact">>, "empty")}, {At(<<"sampler", "compact">>, "null")},
            {At(<<"sampler", "filters", "main.t">>, "mark")}, {At(<<"sampler", "filters", "main.t">>, "boom")}, {At(<<"sampler", "filters">>, "empty")},
            {At(<<"sampler">>, "null")}, {At(<<"sampler">>, "empty")}, {At(<<"planner">>, "null")}, {At(<<"source">>, "null")},
            {At(<<"source">>, "empty")}, {At(<<"planner", "targets", "main.t">>, "null")}, {At(<<"planner", "targets", "main.t">>, "empty")},
            {At(<<"bogus">>, "one")}, {At(<<"source", "bogus">>, "one")}, {At(<<"planner", "bogus">>, "one")},
            {At(<<"sampler", "bogus">>, "one")}, {At(<<"sampler", "compact", "bogus">>, "one")}, {At(OUT \o <<"bogus">>, "one")}}
Fits(layer, o) == \A a \in layer, b \in o : ~IsPrefix(a.p, b.p) /\ ~IsPrefix(b.p, a.p)
C == [cmd |-> cmd, layers |-> layers, faults |-> faults, truncate |-> flags[1], create |-> flags[2], planset |-> planset]

Init == /\ cmd \in Commands /\ layers = <<Base>> /\ nopt = 0 /\ faults = {} /\ pc = "compose" /\ written = {} /\ exit = -1
        /\ flags \in {<<FALSE, FALSE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>, <<TRUE, TRUE>>}
        /\ flags[1] \/ flags[2] => cmd # "plan"
        /\ planset \in {"S1", "S2"} /\ (planset = "S2" => cmd = "sample")
Cost == nopt + Cardinality(faults) + (IF flags[1] THEN 1 ELSE 0) + (IF flags[2] THEN 1 ELSE 0) + (IF planset = "S2" THEN 1 ELSE 0)
(* another file before or after, or one more setting in the last one *)
Compose == /\ pc = "compose" /\ nopt < MaxOptions /\ Cost < Weight /\ faults = {} /\ nopt' = nopt + 1
           /\ \E o \in Options :
                 \/ Len(layers) < 3 /\ layers' = Append(layers, o)
                 \/ Len(layers) < 3 /\ layers' = <<o>> \o layers
                 \/ layers[Len(layers)] # Base /\ Fits(layers[Len(layers)], o) /\ layers' = [layers EXCEPT ![Len(layers)] = @ \cup o]
           /\ UNCHANGED <<cmd, faults, flags, planset, pc, written, exit>>
Applies(f) == /\ f \in PlanFaults \cup {"plan-stdin"} => cmd = "sample"
              /\ f = "output-unwritable" => cmd = "plan"
              /\ f \in {"destination-without-table", "destination-clash", "destination-in-the-way"} => cmd # "plan"
              /\ f = "default-names" => Len(layers) = 1
              /\ \A g \in faults : Cardinality({f, g} \cap (PlanFaults \cup {"plan-stdin"})) < 2 /\ Cardinality({f, g} \cap (ConfigFaults \cup {"config-stdin"})) < 2
                                   /\ Cardinality({f, g} \cap {"config-stdin", "plan-stdin"}) < 2
                                   /\ ~(f = "default-names" /\ g \in (ConfigFaults \cup {"config-stdin", "plan-stdin", "config-comment"}))
                                   /\ ~(g = "default-names" /\ f \in (ConfigFaults \cup {"config-stdin", "plan-stdin", "config-comment"}))
Break == /\ pc = "compose" /\ Cardinality(faults) < MaxFaults /\ Cost < Weight
         /\ \E f \in Faults \ faults : Applies(f) /\ faults' = faults \cup {f}
         /\ UNCHANGED <<cmd, layers, nopt, flags, planset, pc, written, exit>>
Start == pc = "compose" /\ pc' = "usage" /\ UNCHANGED <<cmd, layers, nopt, faults, flags, planset, written, exit>>
NextStage(s) == LET i == CHOOSE i \in DOMAIN Stages : Stages[i] = s IN IF i = Len(Stages) THEN "end" ELSE Stages[i + 1]
Step == /\ pc \in Range(Stages)
        /\ IF Refused(C, pc) THEN pc' = "end" /\ exit' = 1 /\ UNCHANGED written
           ELSE /\ pc' = NextStage(pc)
                /\ exit' = IF pc' = "end" THEN 0 ELSE exit
                /\ written' = IF pc = "planoutput" /\ cmd = "plan" THEN {"plan"}
                              ELSE IF pc = "rows" /\ Samples(C) THEN {Place(Effective(layers))} ELSE written
        /\ UNCHANGED <<cmd, layers, nopt, faults, flags, planset>>
Next == Compose \/ Break \/ Start \/ Step
Spec == Init /\ [][Next]_vars

(* a zero exit status means that everything was done, and nothing else was *)
ZeroIffDone == pc = "end" => (exit = 0) = ~Fails(C)
Done == (pc = "end" /\ exit = 0) => written = (IF cmd = "plan" THEN {"plan"} ELSE {Place(Effective(layers))})
PlanWritesNothing == cmd = "plan" => written \subseteq {"plan"}
EarlyWritesNothing == (pc = "end" /\ Early(C)) => written = {}
(* layering: the last file has the last word, and files are applied one after the other *)
LastWord == LET last == layers[Len(layers)] IN \A a \in last : a.v \notin {"empty"} => Effective(layers)[a.p] = a.v
Associative == Len(layers) = 3 => Effective(layers) = AssignAll(Effective(SubSeq(layers, 1, 2)), layers[3])
KeepsOthers == LET n == Len(layers) eff == Effective(SubSeq(layers, 1, n - 1))
               IN \A q \in DOMAIN eff : (\A a \in layers[n] : ~IsPrefix(a.p, q) /\ ~IsPrefix(q, a.p)) => q \in DOMAIN Effective(layers) /\ Effective(layers)[q] = eff[q]
Emit == pc = "usage" => PrintT("CASE " \o ToJson([cmd |-> cmd, layers |-> [i \in DOMAIN layers |-> SetToSeq(layers[i])], faults |-> SetToSeq(faults),
                                                  truncate |-> flags[1], create |-> flags[2], planset |-> planset]))
=============================================================================
