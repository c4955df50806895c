------------------------------ MODULE Sampling ------------------------------
(***************************************************************************)
(* Which rows of each table are sampled.  Rows are identified by their     *)
(* index in S.src[t]; a sample O maps each planned table to a set of       *)
(* indices.                                                                *)
(***************************************************************************)
EXTENDS Schema

Cell(S, t, i, c) == S.src[t][i][ColIx(S.T[t].cols, c)]
Idx(S, t) == 1..Len(S.src[t])

(* row i of f.src refers to row j of f.dst *)
FkMatch(S, f, i, j) ==
    \A k \in DOMAIN f.cols : LET a == Cell(S, f.src, i, f.cols[k])
                             IN a # NULL /\ a = Cell(S, f.dst, j, f.dcols[k])
FkNull(S, f, i) == \E k \in DOMAIN f.cols : Cell(S, f.src, i, f.cols[k]) = NULL

CondOK(S, t, i, c) == Cmp3(S.strs, c.op, Cell(S, t, i, c.col), c.val) = "T"
ConstraintsOK(S, t, i) == \A c \in Constraints(S, t) : CondOK(S, t, i, c)

(* the target's own filters except the random ones *)
OwnOK(S, t, i) ==
    LET g == S.P.targets[t]
    IN g.all \/ ( /\ \A k \in DOMAIN g.in : Cell(S, t, i, g.in[k].col) \in (RangeOf(g.in[k].vals) \ {NULL})
                  /\ \A k \in DOMAIN g.like : \A p \in RangeOf(g.like[k].pats) :
                        LET v == Cell(S, t, i, g.like[k].col) IN v # NULL /\ Like(p, S.strs[v - TEXT])
                  /\ g.sql = <<>> \/ \E alt \in RangeOf(g.sql) : \A c \in RangeOf(alt) : CondOK(S, t, i, c) )
Own(S, t) ==
    IF ~S.P.targets[t].all /\ S.P.targets[t].percent = 0 THEN {}
    ELSE {i \in Idx(S, t) : OwnOK(S, t, i) /\ ConstraintsOK(S, t, i)}

PercentRandom(S, t) == LET g == S.P.targets[t] IN ~g.all /\ g.percent > 0 /\ g.percent < 100
Amount(S, t) == LET g == S.P.targets[t] IN IF g.all THEN -1 ELSE g.amount
IsRandom(S, t) == IsTarget(S, t) /\ (PercentRandom(S, t) \/ (Amount(S, t) >= 0 /\ Amount(S, t) < Cardinality(Own(S, t)) /\ Amount(S, t) > 0))

(* rows sampled along the plan's joins, given the samples O of the others *)
Along(S, O, t) ==
    LET J == JoinFks(S, t)
    IN IF S.plan.queries[t].outer
       THEN {i \in Idx(S, t) : \E f \in J : \E j \in O[f.src] : FkMatch(S, f, j, i)}
       ELSE {i \in Idx(S, t) : ConstraintsOK(S, t, i)
                               /\ \A f \in J : \E j \in O[f.dst] : FkMatch(S, f, i, j)}

(* a possible choice C of the target's own rows explains the observed set X *)
Explains(S, t, refs, X) ==
    LET own == Own(S, t)
        extra == X \ refs
        n == Amount(S, t)
        k == IF n < 0 THEN Cardinality(own) ELSE Least(n, Cardinality(own))
    IN /\ refs \subseteq X
       /\ extra \subseteq own
       /\ Cardinality(extra) <= k
       /\ PercentRandom(S, t) \/ Cardinality(X \cap own) >= k

(* the sample X of table t is allowed, given the samples O of the others *)
Allowed(S, O, t, X) ==
    IF t \in Pass(S) THEN X = Idx(S, t)
    ELSE IF TargetAll(S, t) THEN X = Own(S, t)
    ELSE IF IsTarget(S, t)
         THEN Explains(S, t, IF JoinFks(S, t) = {} THEN {} ELSE Along(S, O, t), X)
         ELSE X = Along(S, O, t)

(* the sample when nothing is random *)
DetRows(S, O, t) ==
    IF t \in Pass(S) THEN Idx(S, t)
    ELSE IF IsTarget(S, t)
         THEN (IF Amount(S, t) = 0 THEN {} ELSE Own(S, t)) \cup (IF JoinFks(S, t) = {} THEN {} ELSE Along(S, O, t))
         ELSE Along(S, O, t)
RECURSIVE DetFrom(_, _, _)
DetFrom(S, done, O) ==
    IF done = Planned(S) THEN O
    ELSE LET t == CHOOSE u \in Planned(S) \ done : DepsOf(S, u) \subseteq done
         IN DetFrom(S, done \cup {t}, [O EXCEPT ![t] = DetRows(S, O, t)])
DetSample(S) == DetFrom(S, {}, [t \in Planned(S) |-> {}])

(* closure: every followed reference from a sampled row is to a sampled row *)
Broken(S, O) ==
    {f \in Edges(S) : /\ f.src \in Planned(S) /\ f.dst \in Planned(S)
                      /\ \E i \in O[f.src] : /\ ~FkNull(S, f, i)
                                             /\ \E j \in Idx(S, f.dst) : FkMatch(S, f, i, j)
                                             /\ ~\E j \in O[f.dst] : FkMatch(S, f, i, j)}
=============================================================================
