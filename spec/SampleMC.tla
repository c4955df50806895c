------------------------------ MODULE SampleMC -------------------------------
(* Sampling as a machine: tables are sampled one after the other, each once,  *)
(* when those it is joined with are.  For every small schema, every plan that *)
(* PlanProblems allows (not only the layered one), every content of the       *)
(* source and every random choice: what is sampled is closed under the        *)
(* followed foreign keys, and tables that are not targets get nothing else.   *)
EXTENDS OrderMC

CONSTANT Rows
VARIABLES plan, src, O, done
mcvars == <<g, layers, fwd, over, plan, src, O, done>>

S == Scn(g) @@ [plan |-> plan, src |-> src, strs |-> <<>>]
Joinable(G) == LET R == Scn(G) IN {f \in Edges(R) : f.src \in Reach(R) /\ f.dst \in Reach(R)}
(* a plan for a direction of each foreign key; mixed ones are no plans *)
PlanFor(G, way) ==
    LET R == Scn(G)
        F(t) == {f \in DOMAIN way : f.src = t /\ way[f] = "fwd"}
        B(t) == {f \in DOMAIN way : f.dst = t /\ way[f] = "rev"}
    IN [ok |-> TRUE, err |-> "", passthrough |-> SetToSeq(Pass(R)),
        queries |-> [t \in Reach(R) \cup Pass(R) |->
            IF B(t) # {} THEN [outer |-> TRUE, joins |-> SetToSeq({[dst |-> f.src, lcols |-> f.dcols, rcols |-> f.cols] : f \in B(t)})]
            ELSE [outer |-> FALSE, joins |-> SetToSeq({[dst |-> f.dst, lcols |-> f.cols, rcols |-> f.dcols] : f \in F(t)})]]]
NotMixed(way) == \A f, h \in DOMAIN way : ~(way[f] = "fwd" /\ way[h] = "rev" /\ f.src = h.dst)
(* contents: every row has a key, and each foreign key column any key or none *)
Slots(G) == UNION {{<<t, c, i>> : c \in RangeOf(Scn(G).T[t].cols) \ {"id"}, i \in 1..Rows} : t \in Tables(Scn(G))}
Contents(G, v) == [t \in Tables(Scn(G)) |-> [i \in 1..Rows |->
                     LET cols == Scn(G).T[t].cols IN [k \in DOMAIN cols |-> IF cols[k] = "id" THEN i ELSE v[<<t, cols[k], i>>]]]]

MCInit ==
    /\ Init
    /\ RefusalReasons(Scn(g)) = {}
    /\ \E way \in [Joinable(g) -> {"fwd", "rev", "none"}] :
          /\ NotMixed(way)
          /\ plan = PlanFor(g, way)
          /\ PlanProblems(Scn(g) @@ [plan |-> PlanFor(g, way)]) = {}
    /\ \E v \in [Slots(g) -> {NULL} \cup 1..Rows] : src = Contents(g, v)
    /\ O = [t \in DOMAIN plan.queries |-> {}] /\ done = {}
Take(t) ==
    /\ t \notin done /\ DepsOf(S, t) \subseteq done
    /\ \E X \in SUBSET Idx(S, t) : Allowed(S, O, t, X) /\ O' = [O EXCEPT ![t] = X]
    /\ done' = done \cup {t} /\ UNCHANGED <<g, layers, fwd, over, plan, src>>
(* which one comes first makes no difference, so one order is enough *)
Ready == {t \in DOMAIN plan.queries \ done : DepsOf(S, t) \subseteq done}
MCNext == Ready # {} /\ Take(CHOOSE t \in Ready : TRUE)
MCSpec == MCInit /\ [][MCNext]_mcvars

All == done = DOMAIN plan.queries
Progress == Ready = {} => All                                  \* no plan deadlocks
ClosedSample == All => Broken(S, O) = {}
(* a row of a table that is no target is there because of a sampled row it is related to *)
Reason == All => \A t \in Reach(S) \ Targets(S) : \A i \in O[t] :
            \E f \in JoinFks(S, t) : IF f.dst = t THEN \E j \in O[f.src] : FkMatch(S, f, j, i) ELSE \E j \in O[f.dst] : FkMatch(S, f, i, j)
(* all rows sampled when everything is asked for: nothing but dead ends and broken chains is left out *)
Det == All /\ (\A t \in Targets(S) : TargetAll(S, t)) => \A t \in DOMAIN O : O[t] = DetSample(S)[t]
=============================================================================
