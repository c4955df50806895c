-------------------------------- MODULE Order --------------------------------
(***************************************************************************)
(* The order of planning as a machine: tables are placed layer by layer,   *)
(* what is reachable along foreign keys from the targets first, then what  *)
(* refers to these, and so on.  Over small abstract schemas:               *)
(*   g.n      number of tables          g.e[i,j]  foreign keys from i to j *)
(*   g.role   T target of all rows, t target of some rows, p passthrough,  *)
(*            i ignored, u not selected, n none of these                   *)
(*   g.incdep referred tables are selected too                             *)
(***************************************************************************)
EXTENDS Sampling, TLC, SequencesExt

VARIABLES g, layers, fwd, over
vars == <<g, layers, fwd, over>>

Name(i) == <<"s.a", "s.b", "s.c", "s.d">>[i]
Chars(i) == <<115, 46, 96 + i>>
Pairs(G) == {p \in (1..G.n) \X (1..G.n) : G.e[p] > 0}
FkCol(j, k) == ToString(j) \o "_" \o ToString(k)
FkList(G, i) == SetToSeq({[cols |-> <<FkCol(p[1], p[2])>>, dst |-> Name(p[1]), dcols |-> <<"id">>]
                           : p \in {q \in (1..G.n) \X (1..2) : q[2] <= G.e[<<i, q[1]>>]}})
With(G, r) == {i \in 1..G.n : G.role[i] = r}
ById(G, Is, f(_)) == [t \in {Name(i) : i \in Is} |-> f(CHOOSE i \in Is : Name(i) = t)]
Rule(all) == [all |-> all, percent |-> 100, amount |-> -1, in |-> <<>>, like |-> <<>>, sql |-> <<>>]
(* the scenario (see Schema) that an abstract schema stands for *)
Scn(G) ==
    [T |-> ById(G, 1..G.n, LAMBDA i : [schema |-> "s", chars |-> Chars(i), pk |-> <<"id">>, fks |-> FkList(G, i),
                                       cols |-> <<"id">> \o [k \in DOMAIN FkList(G, i) |-> FkList(G, i)[k].cols[1]]]),
     P |-> [select |-> SetToSeq({Chars(i) : i \in (1..G.n) \ With(G, "u")}),
            passthrough |-> SetToSeq({Name(i) : i \in With(G, "p")}),
            ignore |-> SetToSeq({Name(i) : i \in With(G, "i")}),
            targets |-> ById(G, With(G, "T") \cup With(G, "t"), LAMBDA i : Rule(G.role[i] = "T")),
            constraints |-> << >>, infer |-> "none", incdep |-> G.incdep, extra |-> <<>>, ignorefks |-> <<>>]]

S0 == Scn(g)
Placed == UNION RangeOf(layers)
Start == Targets(S0) \cap Nodes(S0)
NextLayer ==
    IF layers = <<>> THEN Grow(Fwd(S0), Start)
    ELSE LET E == {e \in (IF fwd THEN Fwd(S0) ELSE Rev(S0)) : e[2] \notin Placed}
         IN Grow(E, {e[2] : e \in {d \in E : d[1] \in layers[Len(layers)]}})
Place == /\ ~over /\ NextLayer # {}
         /\ layers' = Append(layers, NextLayer) /\ fwd' = ~fwd /\ UNCHANGED <<g, over>>
Finish == ~over /\ NextLayer = {} /\ over' = TRUE /\ UNCHANGED <<g, layers, fwd>>
Next == Place \/ Finish

(* the plan of this order *)
QueryOf(G, L, t) ==
    LET S == Scn(G)
        J == IF TargetAll(S, t) THEN {} ELSE ModelJoins(S, L, t)
        out == Odd(LayerOf(L, t))
    IN [outer |-> out,
        joins |-> SetToSeq({IF out THEN [dst |-> f.src, lcols |-> f.dcols, rcols |-> f.cols]
                                   ELSE [dst |-> f.dst, lcols |-> f.cols, rcols |-> f.dcols] : f \in J})]
Plain == [outer |-> FALSE, joins |-> <<>>]
PlanOf(G, L) ==
    LET S == Scn(G)
    IN [ok |-> TRUE, err |-> "", passthrough |-> SetToSeq(Pass(S)),
        queries |-> [t \in Reach(S) \cup Pass(S) |-> IF t \in Reach(S) THEN QueryOf(G, L, t) ELSE Plain]]
Planned_(G, L) == Scn(G) @@ [plan |-> PlanOf(G, L)]

(* ------------------------------------------------------------ invariants *)
Disjoint == \A a, b \in DOMAIN layers : a # b => layers[a] \cap layers[b] = {}
(* nothing that the layer leads to is left out, and nothing placed has to be looked at again *)
Closed == \A k \in DOMAIN layers : \A e \in (IF Odd(k) THEN Fwd(S0) ELSE Rev(S0)) :
             e[1] \in layers[k] => e[2] \in UNION {layers[m] : m \in 1..k}
Few == Len(layers) <= g.n
SameLayers == over => (layers = <<>> /\ Start = {}) \/ layers = Layers(S0)
Complete == over => Placed = Reach(S0)
Good == over /\ RefusalReasons(S0) = {} => PlanProblems(Planned_(g, layers)) = {}
=============================================================================
