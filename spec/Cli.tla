--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line: layered configuration files, the three commands, what *)
(* they may write and how they end.                                        *)
(*                                                                         *)
(* A file is a set of assignments [p, v]: a path of keys and a symbol. Two *)
(* symbols are special: "null" and "empty" (a mapping without keys). The   *)
(* effective configuration is a function from paths to symbols.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

IsPrefix(p, q) == Len(p) <= Len(q) /\ \A i \in DOMAIN p : p[i] = q[i]

(* ------------------------------------------------------------- layering *)
Assign(eff, a) ==
    LET under == {q \in DOMAIN eff : IsPrefix(a.p, q) /\ q # a.p}
        gone == {q \in DOMAIN eff : IsPrefix(q, a.p)} \cup (IF a.v = "empty" THEN {} ELSE under)
    IN IF a.v = "empty" /\ under # {} THEN eff                     \* nothing to add
       ELSE [q \in (DOMAIN eff \ gone) \cup {a.p} |-> IF q = a.p THEN a.v ELSE eff[q]]
RECURSIVE AssignAll(_, _)
AssignAll(eff, as) == IF as = {} THEN eff ELSE LET a == CHOOSE x \in as : TRUE IN AssignAll(Assign(eff, a), as \ {a})
RECURSIVE Layered(_, _)
Layered(eff, layers) == IF layers = <<>> THEN eff ELSE Layered(AssignAll(eff, layers[1]), Tail(layers))
NoKeys == [q \in {} |-> ""]
Effective(layers) == Layered(NoKeys, layers)

(* ------------------------------------------------------- what it settles *)
Has(eff, p) == \E q \in DOMAIN eff : IsPrefix(p, q)
Section(eff, p) == Has(eff, p) /\ ~(p \in DOMAIN eff /\ eff[p] = "null")
Get(eff, p, default) == IF p \in DOMAIN eff THEN eff[p] ELSE default
OUT == <<"sampler", "output">>
Known(q) == \/ q \in {<<"source">>, <<"planner">>, <<"sampler">>}
            \/ q[1] = "source" /\ Len(q) = 2 /\ q[2] \in {"dialect", "database"}
            \/ q[1] = "planner" /\ (q = <<"planner", "select">> \/ (Len(q) >= 2 /\ q[2] = "targets" /\
                     (Len(q) <= 3 \/ (Len(q) = 4 /\ q[4] = "all") \/ (q[4] = "in" /\ Len(q) <= 5))))
            \/ q[1] = "sampler" /\ (Len(q) = 1 \/ q[2] \in {"output", "compact", "filters"})
Settings(mode) == IF mode = "directory" THEN {"mode", "directory"} ELSE {"mode", "dialect", "database"}
BadAt(eff, q) ==
    \/ ~Known(q)
    \/ eff[q] = "bad"
    \/ eff[q] = "null" /\ q \notin {<<"planner">>, <<"sampler">>}
    \/ q[1] = "sampler" /\ Len(q) >= 3 /\ q[2] = "compact" /\ q[3] \notin {"primary_keys", "start_key"}
Valid(eff) ==
    /\ \A q \in DOMAIN eff : ~BadAt(eff, q)
    /\ Section(eff, <<"planner">>) => /\ Has(eff, <<"planner", "select">>) /\ Has(eff, <<"planner", "targets">>)
    /\ Section(eff, OUT) => LET mode == Get(eff, OUT \o <<"mode">>, "none")
                            IN /\ mode \in {"directory", "database"}
                               /\ \A q \in DOMAIN eff : IsPrefix(OUT, q) => Len(q) = 3 /\ q[3] \in Settings(mode)
                               /\ mode = "directory" => Has(eff, OUT \o <<"directory">>)
Place(eff) == IF ~Section(eff, OUT) THEN "output"
              ELSE IF Get(eff, OUT \o <<"mode">>, "") = "directory" THEN Get(eff, OUT \o <<"directory">>, "")
              ELSE Get(eff, OUT \o <<"database">>, "")
ToDatabase(eff) == Place(eff) \in {"D1", "D2"}
Source(eff) == Get(eff, <<"source", "database">>, "none")
TARGET == <<"planner", "targets", "main.t">>
Wanted(eff) == IF Section(eff, TARGET) THEN Get(eff, TARGET \o <<"in", "id">>, "every") ELSE "none"
Rows(src, set) == CASE src = "A" /\ set = "S1" -> {1, 2} [] src = "A" /\ set = "S2" -> {3}
                    [] src = "B" /\ set = "S1" -> {11} [] src = "B" /\ set = "S2" -> {12, 13}
                    [] src = "A" /\ set = "every" -> {1, 2, 3} [] src = "B" /\ set = "every" -> {11, 12, 13}
                    [] OTHER -> {}
Others(src) == IF src = "A" THEN {4, 5} ELSE {14}                    \* the rows of the other target
Compacts(eff) == Get(eff, <<"sampler", "compact", "primary_keys">>, "no") = "yes"
StartKey(eff) == CASE Get(eff, <<"sampler", "compact", "start_key">>, "one") = "five" -> 5
                   [] Get(eff, <<"sampler", "compact", "start_key">>, "one") = "nine" -> 9
                   [] OTHER -> 1
Keys(eff, rows) == IF Compacts(eff) THEN StartKey(eff)..(StartKey(eff) + Cardinality(rows) - 1) ELSE rows
Filter(eff) == Get(eff, <<"sampler", "filters", "main.t">>, "plain")

(* ------------------------------------------------------ what can go wrong *)
(* c: [cmd, layers, faults, truncate, create, plansrc]; plansrc, planset: what the plan given to "sample" selects *)
Commands == {"plan", "sample", "subset"}
Usage == {"no-command", "unknown-command", "unknown-option"}
ConfigFaults == {"config-missing", "config-broken", "config-directory", "config-list"}
PlanFaults == {"plan-missing", "plan-broken", "plan-directory", "plan-empty"}
Faults == Usage \cup ConfigFaults \cup PlanFaults \cup
          {"source-without-table", "output-unwritable", "destination-without-table", "destination-clash", "destination-in-the-way",
           "config-comment", "config-stdin", "plan-stdin", "default-names"}
Plans(c) == c.cmd \in {"plan", "subset"}
Samples(c) == c.cmd \in {"sample", "subset"}
(* the stages of a command, in order; the first that cannot be done ends it *)
Refused(c, stage) ==
    LET eff == Effective(c.layers) IN
    CASE stage = "usage" -> c.faults \cap Usage # {}
      [] stage = "config" -> c.faults \cap ConfigFaults # {} \/ ~Valid(eff)
      [] stage = "planner" -> Plans(c) /\ ~Section(eff, <<"planner">>)
      [] stage = "planfile" -> c.cmd = "sample" /\ c.faults \cap PlanFaults # {}
      [] stage = "schema" -> "source-without-table" \in c.faults \/ Source(eff) = "none" \/ Get(eff, <<"source", "dialect">>, "none") = "none"
      [] stage = "planoutput" -> c.cmd = "plan" /\ "output-unwritable" \in c.faults
      [] stage = "destination" -> Samples(c) /\ (\/ "destination-in-the-way" \in c.faults
                                                 \/ "destination-without-table" \in c.faults /\ ToDatabase(eff) /\ ~c.create)
      [] stage = "rows" -> Samples(c) /\ (\/ Filter(eff) = "boom" /\ Rows(Source(eff), IF Plans(c) THEN Wanted(eff) ELSE c.planset) # {}
                                          \/ "destination-clash" \in c.faults /\ "destination-without-table" \notin c.faults
                                             /\ ToDatabase(eff) /\ ~c.truncate)
Stages == <<"usage", "config", "planner", "planfile", "schema", "planoutput", "destination", "rows">>
Fails(c) == \E i \in DOMAIN Stages : Refused(c, Stages[i])
(* (a plan that was given names the tables; that they are missing shows when they are read) *)
Early(c) == \E i \in 1..(IF c.cmd = "sample" THEN 4 ELSE 6) : Refused(c, Stages[i])

(* ---------------------------------------------------------- the verdict *)
(* seen: [ok, changed (source changed), place, t: keys, v: values of t, u: keys, plan: the plan's set, written: places changed] *)
CliBad(c, seen) ==
    LET eff == Effective(c.layers)
        set == IF Plans(c) THEN Wanted(eff) ELSE c.planset
        rows == Rows(Source(eff), set)
        allwritten == {seen.written[i] : i \in DOMAIN seen.written}
    IN  (IF seen.ok = ~Fails(c) THEN {} ELSE IF seen.ok THEN {"cli.zero-though-failed"} ELSE {"cli.failed"})
        \cup (IF seen.changed THEN {"cli.source-changed"} ELSE {})
        \cup (IF (c.cmd = "plan" \/ Early(c)) /\ allwritten # {} THEN {"cli.written"} ELSE {})
        \cup (IF Fails(c) \/ ~seen.ok THEN {}
              ELSE IF c.cmd = "plan" THEN (IF seen.plan = Wanted(eff) THEN {} ELSE {"cli.plan"})
              ELSE (IF allwritten = {Place(eff)} THEN {} ELSE {"cli.place"})
                   \cup (IF /\ {seen.t[i] : i \in DOMAIN seen.t} = Keys(eff, rows)
                            /\ Len(seen.t) = Cardinality(rows)
                            /\ {seen.v[i] : i \in DOMAIN seen.v} = rows
                            /\ {seen.u[i] : i \in DOMAIN seen.u} = Keys(eff, Others(Source(eff)))
                            /\ Len(seen.u) = Cardinality(Others(Source(eff)))
                            /\ seen.marked = (Filter(eff) = "mark" /\ rows # {})
                         THEN {} ELSE {"cli.rows"}))
=============================================================================
