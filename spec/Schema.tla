------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* Which tables and relationships take part, when planning is refused, and *)
(* what a plan must look like.  S is a scenario record (see DESIGN.md):    *)
(*   S.T    source tables  t -> [schema, chars, cols, isint, pk, fks, ...] *)
(*   S.P    planner configuration                                          *)
(*   S.plan the plan the code produced (projection of its document)        *)
(***************************************************************************)
EXTENDS Values

ColIx(cols, c) == CHOOSE i \in DOMAIN cols : cols[i] = c
HasCol(S, t, c) == c \in RangeOf(S.T[t].cols)

Tables(S) == DOMAIN S.T
FkRec(t, f) == [src |-> t, cols |-> f.cols, dst |-> f.dst, dcols |-> f.dcols]
Declared(S, t) == {FkRec(t, S.T[t].fks[i]) : i \in DOMAIN S.T[t].fks}
DeclaredAll(S, X) == UNION {Declared(S, t) : t \in X}

Passlist(S) == RangeOf(S.P.passthrough)
Sel0(S) == {t \in Tables(S) : t \in Passlist(S) \/ \E i \in DOMAIN S.P.select : Glob(S.P.select[i], S.T[t].chars)}

RECURSIVE CloseFwd(_, _)
CloseFwd(S, X) == LET N == {f.dst : f \in DeclaredAll(S, X)}
                  IN IF N \subseteq X THEN X ELSE CloseFwd(S, X \cup N)

Sel(S) == IF S.P.incdep THEN CloseFwd(S, Sel0(S)) ELSE Sel0(S)

(* tables of X whose single-column primary key is called c *)
InferCand(S, X, mode, t, c) ==
    {u \in X : S.T[u].pk = <<c>> /\ (mode = "all" \/ S.T[u].schema = S.T[t].schema)}
Inferred(S, X, mode) ==
    IF mode = "none" THEN {}
    ELSE UNION {UNION {LET D == InferCand(S, X, mode, t, c)
                       IN IF Cardinality(D) = 1 /\ t \notin D
                          THEN {[src |-> t, cols |-> <<c>>, dst |-> CHOOSE u \in D : TRUE, dcols |-> <<c>>]}
                          ELSE {}
                       : c \in RangeOf(S.T[t].cols)} : t \in X}

ExtraFks(S) == {f \in RangeOf(S.P.extra) :
                  /\ f.src \in Sel(S) /\ f.dst \in Sel(S)
                  /\ RangeOf(f.cols) \subseteq RangeOf(S.T[f.src].cols)
                  /\ RangeOf(f.dcols) \subseteq RangeOf(S.T[f.dst].cols)}

EffFks(S) ==
    LET X == Sel(S)
        all == DeclaredAll(S, X) \cup Inferred(S, X, S.P.infer)
        kept == {f \in all : ~\E g \in RangeOf(S.P.ignorefks) : g.src = f.src /\ g.dst = f.dst}
    IN kept \cup ExtraFks(S)

Pass(S)  == Passlist(S) \cap Sel(S)
Ign(S)   == RangeOf(S.P.ignore)
Nodes(S) == (Sel(S) \ Pass(S)) \ Ign(S)
Edges(S) == {f \in EffFks(S) : f.src \in Nodes(S) /\ f.dst \in Nodes(S)}
Targets(S) == DOMAIN S.P.targets
IsTarget(S, t) == t \in Targets(S)
TargetAll(S, t) == IsTarget(S, t) /\ S.P.targets[t].all

RECURSIVE Grow(_, _)
Grow(E, X) == LET N == X \cup {e[2] : e \in {d \in E : d[1] \in X}}     \* E: set of pairs
              IN IF N = X THEN X ELSE Grow(E, N)
Fwd(S) == {<<f.src, f.dst>> : f \in Edges(S)}
Rev(S) == {<<f.dst, f.src>> : f \in Edges(S)}
Reach(S) == Grow(Fwd(S) \cup Rev(S), Targets(S) \cap Nodes(S))
CyclicIn(E, X) == \E t \in X : t \in Grow(E, {e[2] : e \in {d \in E : d[1] = t}})

(* The layered order: layer 1 is everything reachable forward from the     *)
(* targets, layer 2 what is reachable backward from layer 1, and so on.    *)
RECURSIVE LayersFrom(_, _, _, _, _)
LayersFrom(Ef, Er, placed, H, fwd) ==
    LET E == {e \in (IF fwd THEN Ef ELSE Er) : e[2] \notin placed}
        L == Grow(E, {e[2] : e \in {d \in E : d[1] \in H}})
    IN IF L = {} THEN <<>> ELSE <<L>> \o LayersFrom(Ef, Er, placed \cup L, L, ~fwd)
Layers(S) ==
    LET E1 == Fwd(S)
        L1 == Grow(E1, Targets(S) \cap Nodes(S))
    IN <<L1>> \o LayersFrom(Fwd(S), Rev(S), L1, L1, FALSE)
LayerOf(LL, t) == CHOOSE k \in DOMAIN LL : t \in LL[k]
Odd(k) == k % 2 = 1
(* the foreign keys along which the layered order samples t *)
ModelJoins(S, LL, t) ==
    IF Odd(LayerOf(LL, t))
    THEN {f \in Edges(S) : f.dst = t /\ LayerOf(LL, f.src) <= LayerOf(LL, t)}
    ELSE {f \in Edges(S) : f.src = t /\ LayerOf(LL, f.dst) <= LayerOf(LL, t)}

Constraints(S, t) == IF t \in DOMAIN S.P.constraints THEN RangeOf(S.P.constraints[t]) ELSE {}

(* why planning must be refused; {} means a plan must be produced *)
RefusalReasons(S) ==
    (IF S.P.incdep /\ \E f \in EffFks(S) : f.src \notin Ign(S) /\ f.dst \in Ign(S)
     THEN {"ignored-referenced"} ELSE {})
    \cup (IF \E f \in EffFks(S) : f.src \in Pass(S) /\ f.dst \notin Passlist(S)
          THEN {"passthrough-refers-out"} ELSE {})
    \cup (IF ~(Targets(S) \subseteq Nodes(S)) THEN {"target-not-selected"} ELSE {})
    \cup (IF CyclicIn(Fwd(S), Reach(S)) THEN {"cycle"}
          ELSE IF Targets(S) \subseteq Nodes(S)
               THEN LET LL == Layers(S)
                    IN IF \E t \in Reach(S) : Constraints(S, t) # {}
                                /\ (\/ Odd(LayerOf(LL, t)) /\ ModelJoins(S, LL, t) # {}
                                    \/ \E c \in Constraints(S, t) : ~HasCol(S, t, c.col))
                       THEN {"constraint-impossible"} ELSE {}
               ELSE {})

(***************************************************************************)
(* The plan as produced: S.plan.queries[t] = [joins, outer].               *)
(***************************************************************************)
Planned(S) == DOMAIN S.plan.queries
JoinFks(S, t) ==
    LET q == S.plan.queries[t]
    IN {IF q.outer THEN [src |-> j.dst, cols |-> j.rcols, dst |-> t, dcols |-> j.lcols]
                   ELSE [src |-> t, cols |-> j.lcols, dst |-> j.dst, dcols |-> j.rcols]
        : j \in RangeOf(q.joins)}
DepsOf(S, t) == {j.dst : j \in RangeOf(S.plan.queries[t].joins)}

PlanProblems(S) ==
    LET R == Reach(S)
        fwdJ(t) == IF S.plan.queries[t].outer THEN {} ELSE JoinFks(S, t)
        revJ(t) == IF S.plan.queries[t].outer THEN JoinFks(S, t) ELSE {}
        depE == UNION {{<<t, d>> : d \in DepsOf(S, t)} : t \in Planned(S)}
    IN IF Planned(S) # R \cup Pass(S) \/ RangeOf(S.plan.passthrough) # Pass(S)
       THEN {"plan.tables"}
       ELSE (IF \E t \in Planned(S) : ~(JoinFks(S, t) \subseteq Edges(S)) THEN {"plan.foreign-join"} ELSE {})
            \cup (IF \E t \in R : ~IsTarget(S, t) /\ JoinFks(S, t) = {} THEN {"plan.unrelated"} ELSE {})
            \cup (IF \E t \in R : IsTarget(S, t) /\ fwdJ(t) # {} THEN {"plan.target-restricted"} ELSE {})
            \cup (IF CyclicIn(depE, Planned(S)) THEN {"plan.circular"} ELSE {})
            \cup (IF \E f \in Edges(S) : f.src \in R /\ f.dst \in R /\
                        LET a == f \in fwdJ(f.src)
                            b == f \in revJ(f.dst) \/ (TargetAll(S, f.dst) /\ ~a)
                        IN ~(a \/ b) \/ (a /\ b)
                  THEN {"plan.edge-not-followed-once"} ELSE {})
=============================================================================
