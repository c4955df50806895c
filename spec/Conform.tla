------------------------------ MODULE Conform -------------------------------
(***************************************************************************)
(* Which clauses of the specification a recorded scenario breaks.  Every   *)
(* operator yields the set of names of the clauses broken.                 *)
(***************************************************************************)
EXTENDS Dest

(* ------------------------------------------------------------ the plan *)
CycleNamed(S) ==
    LET w == S.plan.named
        along(E) == \A i \in 1..(Len(w) - 1) : <<w[i], w[i + 1]>> \in E
    IN Len(w) >= 2 /\ w[1] = w[Len(w)] /\ (along(Fwd(S)) \/ along(Rev(S)))

PlanBad(S) ==
    LET reasons == RefusalReasons(S)
    IN (IF S.plan.err = "Timeout" THEN {"hangs"} ELSE {}) \cup
       (IF S.plan.ok
        THEN IF reasons # {} THEN {"plan.accepted." \o r : r \in reasons} ELSE PlanProblems(S)
        ELSE IF reasons = {} THEN {"plan.refused"}
             ELSE IF reasons = {"cycle"} /\ ~CycleNamed(S) THEN {"plan.cycle-unnamed"} ELSE {})
       \cup (IF S.plansrc # S.src THEN {"source.rows"} ELSE {})
       \cup (IF ~S.planobjs THEN {"source.objects"} ELSE {})
(* a plan that cannot be interpreted: nothing further can be judged *)
Unusable(S) == ~S.plan.ok \/ RefusalReasons(S) # {}
               \/ PlanProblems(S) \cap {"plan.tables", "plan.foreign-join", "plan.circular"} # {}

(* ---------------------------------------------------------- the samples *)
TagSet(S, R, t) ==
    LET d == DestOf(S, R, R.end.D, t)
        c == S.T[t].tag
    IN IF c \notin RangeOf(R.end.D[d].cols) THEN {}
       ELSE {DCell(R.end.D, R.end.dst, d, i, c) : i \in DOMAIN R.end.dst[d]}
ObsSample(S, R) == [t \in Planned(S) |-> LET T == TagSet(S, R, t) IN {i \in Idx(S, t) : Cell(S, t, i, S.T[t].tag) \in T}]
SampleOf(S, R) == IF S.omode = "obs" THEN ObsSample(S, R) ELSE DetSample(S)

SampleClause(S, t) ==
    IF t \in Pass(S) THEN "sample.passthrough"
    ELSE IF IsTarget(S, t) THEN (IF JoinFks(S, t) = {} THEN "sample.target" ELSE "sample.target-referenced")
    ELSE IF S.plan.queries[t].outer THEN "sample.union" ELSE "sample.intersection"
SampleBad(S, O) ==
    {SampleClause(S, t) : t \in {u \in Planned(S) : ~Allowed(S, O, u, O[u])}}
    \cup (IF Broken(S, O) # {} THEN {"closure"} ELSE {})

(* ------------------------------------------------------------- one run *)
Complete(S, R) == IF R.cut THEN S.runs[R.same].end.dst ELSE R.end.dst
Tracked(X) == DOMAIN X
LookBad(S, R, X) ==
    LET C == Complete(S, R)
        D == R.end.D
        TS == IF R.truncate THEN TruncSet(R.D0, PlannedDest(S, R, R.D0)) ELSE {}
        fksok == FkClosed(D, R.dst0) /\ FkClosed(D, C)
    IN (IF fksok /\ ~FkClosed(D, X) THEN {"look.fk"} ELSE {})
       \cup (IF \E d \in DOMAIN X : ~SubRows(X[d], At(R.dst0, d, <<>>) \o At(C, d, <<>>)) THEN {"look.foreign-rows"} ELSE {})
       \cup (IF \E d \in DOMAIN R.dst0 : /\ d \notin TS
                                         /\ ~(d \in DOMAIN X /\ (R.conflict = "replace" \/ SubRows(R.dst0[d], X[d])))
             THEN {"look.lost-rows"} ELSE {})
       \cup (IF \E d \in DOMAIN X : d \in TS /\ ~SubRows(R.dst0[d], X[d]) /\ ~SubRows(X[d], At(C, d, <<>>))
             THEN {"look.half-truncated"} ELSE {})

AsSet(x) == RangeOf(x)
DescEq(a, b) == /\ a.cols = b.cols /\ a.types = b.types /\ a.null = b.null /\ a.pk = b.pk
                /\ AsSet(a.uniq) = AsSet(b.uniq) /\ AsSet(a.fks) = AsSet(b.fks) /\ a.computed = b.computed
CreateBad(S, R) ==
    LET names == {d \in DOMAIN R.end.D : d \notin DOMAIN R.D0}
        made == {t \in Planned(S) : DestIn(R.D0, DestChars(S, R, t)) = {}}
    IN (IF \E d \in DOMAIN R.D0 : d \notin DOMAIN R.end.D \/ ~DescEq(R.D0[d], R.end.D[d]) THEN {"create.existing-changed"} ELSE {})
       \cup (IF ~(names \subseteq PlannedDest(S, R, R.end.D)) \/ (names # {} /\ ~R.create) THEN {"create.unwanted"} ELSE {})
       \cup UNION {LET d == DestOf(S, R, R.end.D, t)
                       Dd == R.end.D[d]
                       Ts == S.desc[t]
                   IN (IF Dd.cols # Ts.cols THEN {"create.columns"}
                       ELSE (IF \E k \in DOMAIN Dd.cols : Ts.computed = <<>> /\ Dd.types[k] # Ts.types[k] THEN {"create.types"} ELSE {})
                            \cup (IF \E k \in DOMAIN Dd.cols : /\ Dd.cols[k] \notin RangeOf(Dd.pk) /\ Dd.cols[k] \notin RangeOf(Ts.computed)
                                                               /\ Dd.null[k] # Ts.null[k] THEN {"create.nullability"} ELSE {}))
                      \cup (IF Dd.pk # Ts.pk THEN {"create.primary-key"} ELSE {})
                      \cup (IF {AsSet(u) : u \in AsSet(Dd.uniq)} # {AsSet(u) : u \in AsSet(Ts.uniq)} THEN {"create.unique"} ELSE {})
                      \cup (IF ~(AsSet(Dd.fks) \subseteq CreatedFks(S, R, R.end.D, t)) THEN {"create.extra-foreign-key"} ELSE {})
                      \cup (IF \E f \in CreatedFks(S, R, R.end.D, t) :
                                  /\ f \notin AsSet(Dd.fks)
                                  /\ ~(S.dialect = "sqlite" /\ R.end.D[f.dst].schema # Dd.schema)
                            THEN {"create.foreign-key"} ELSE {})
                   : t \in {u \in made : DestIn(R.end.D, DestChars(S, R, u)) # {}}}

RowsBad(S, R, O) ==
    LET B == Base(S, R)
        PM == PkMax(S, R, B)
        M == Maps(S, R, O)
        D == R.end.D
        PD == PlannedDest(S, R, D)
        wrong == {t \in Planned(S) : ~SameBag(S, R, ExpTable(S, R, O, PM, M, B, t), R.end.dst[DestOf(S, R, D, t)])}
    IN (IF wrong # {} THEN {"rows"} ELSE {})
       \cup (IF \E d \in DOMAIN D \ PD : ~SameRows(R.end.dst[d], B[d]) THEN {"others"} ELSE {})
       \cup (IF \E t \in DOMAIN R.end.next : \E u \in Planned(S) :
                    /\ DestOf(S, R, D, u) = t /\ O[u] # {} /\ D[t].pk[1] \in WrittenCols(S, R, D[t], u)
                    /\ \E i \in DOMAIN R.end.dst[t] :
                         LET v == DCell(D, R.end.dst, t, i, D[t].pk[1]) IN IsInt(v) /\ v >= R.end.next[t]
             THEN {"next-key"} ELSE {})

(* the run must fail because of a key clash / the properties are silent about it *)
ClashDue(S, R, O) ==
    LET B == Base(S, R) PM == PkMax(S, R, B) M == Maps(S, R, O)
    IN \E t \in Planned(S) : MustClash(S, R, O, PM, M, B, t)
Silent(S, R, O) ==
    LET B == Base(S, R) PM == PkMax(S, R, B) M == Maps(S, R, O)
    IN \E t \in Planned(S) : Outside(S, R, O, PM, M, B, t)
(* an engine that enforces foreign keys refuses an output that breaks them *)
ExpState(S, R, O) ==
    LET B == Base(S, R) PM == PkMax(S, R, B) M == Maps(S, R, O)
        D == R.end.D
        asSeq(E) == LET ks == SetToSeq(DOMAIN E) IN [n \in DOMAIN ks |-> E[ks[n]]]
    IN [d \in DOMAIN D |-> IF d \in PlannedDest(S, R, D)
                           THEN LET t == CHOOSE u \in Planned(S) : DestOf(S, R, D, u) = d
                                IN asSeq(ExpTable(S, R, O, PM, M, B, t))
                           ELSE B[d]]
FkDoomed(S, R, O) ==
    LET X == ExpState(S, R, O) IN \E f \in DFks(R.end.D) : ~FkHolds(R.end.D, X, f)

ExtraBad(S, R) ==
    (IF R.end.src # (IF R.versions = <<>> THEN S.src ELSE R.versions[Len(R.versions)]) THEN {"source.rows"} ELSE {})
    \cup (IF ~R.end.objs THEN {"source.objects"} ELSE {})
    \cup (IF ~R.planeq THEN {"plan-document"} ELSE {})

(* some table has existed before without all of the columns that are to be written *)
Lacking(S, R) == \E t \in Planned(S) : /\ R.kind = "db" /\ HasDest(S, R, R.end.D, t)
                                       /\ \E c \in RangeOf(OutCols(S, R, t)) : c \notin RangeOf(R.end.D[DestOf(S, R, R.end.D, t)].cols)
Dropping(S, R) == S.dialect = "mysql" /\ \E t \in Planned(S) : Strategy(S, R, t) = "skip"    \* INSERT IGNORE
(* replacing: existing rows with keys that no sampled row has are never changed, not *)
(* even if they clash in other columns (MySQL replaces those that clash in any key)  *)
OthersReplaced(S, R, O) ==
    LET B == Base(S, R) PM == PkMax(S, R, B) M == Maps(S, R, O)
    IN IF S.dialect # "mysql" /\ ~Compacting(S, R) /\ \E t \in Planned(S) :
             LET d == DestOf(S, R, R.end.D, t)
                 Dd == R.end.D[d]
                 N == Incoming(S, R, O, PM, M, t)
             IN /\ Eff(S, R, Dd, t) = "replace"
                /\ \A c \in RangeOf(Dd.pk) : c \in WrittenCols(S, R, Dd, t)
                /\ ~SubRows(SelectSeq(B[d], LAMBDA b : ~\E n \in DOMAIN N : PkClash(Dd, N[n], b)), R.end.dst[d])
       THEN {"clash.changed-rows"} ELSE {}
OutcomeBad(S, R) ==
    LET ref == RunRefusal(S, R)
        absent == \E t \in Planned(S) : R.kind = "db" /\ ~HasDest(S, R, R.end.D, t)
    IN IF R.cut /\ ~R.end.ok THEN LookBad(S, R, R.end.dst)
       ELSE IF ref # {}
       THEN (IF R.end.ok THEN {"run.accepted." \o r : r \in ref}
             ELSE (IF \E d \in DOMAIN R.dst0 : d \notin DOMAIN R.end.dst \/ ~SameRows(R.dst0[d], R.end.dst[d]) THEN {"run.refused-late"} ELSE {})
                  \cup (IF \E d \in DOMAIN R.end.dst : d \notin DOMAIN R.dst0 /\ R.end.dst[d] # <<>> THEN {"run.refused-late"} ELSE {}))
       ELSE IF R.end.ok
       THEN IF absent THEN {"table-absent"}
            ELSE LET O == SampleOf(S, R)
                 IN SampleBad(S, O)
                    \cup (IF Silent(S, R, O) \/ (Dropping(S, R) /\ FkDoomed(S, R, O)) THEN OthersReplaced(S, R, O)
                          ELSE IF ClashDue(S, R, O) THEN {"run.clash-accepted"} ELSE RowsBad(S, R, O))
                    \cup (IF R.kind = "db" THEN CreateBad(S, R) ELSE {})
       ELSE IF absent THEN (IF Lacking(S, R) THEN {} ELSE {"run.failed"})
       ELSE LET rnd == S.omode = "obs" /\ \E t \in Planned(S) : IsRandom(S, t)
                O == IF rnd THEN [t \in Planned(S) |-> {}] ELSE DetSample(S)
            IN IF rnd /\ ~(\A t \in Planned(S) : \A f \in Declared(S, t) : f.dst \in Planned(S) => f \in Edges(S))
               THEN {}           \* the destination has a foreign key the sample need not respect
               ELSE IF rnd /\ LET A == [t \in Planned(S) |-> Idx(S, t)] IN ClashDue(S, R, A) \/ Silent(S, R, A)
               THEN {}           \* some sample clashes: nobody can tell whether the one that was drawn did
               ELSE IF ClashDue(S, R, O)
               THEN (IF \E d \in DOMAIN R.end.D :
                               /\ ~SubRows(Base(S, R)[d], R.end.dst[d])
                               /\ ~(\E t \in Planned(S) : DestOf(S, R, R.end.D, t) = d /\ Eff(S, R, R.end.D[d], t) = "replace")
                     THEN {"clash.changed-rows"} ELSE {})
               ELSE IF Silent(S, R, O) \/ FkDoomed(S, R, O) THEN OthersReplaced(S, R, O) ELSE {"run.failed"}

(* the source rows were changed by others while the run was in progress:     *)
(* R.versions are the states of the source, the first one S.src              *)
At_(S, v) == [S EXCEPT !.src = v]
SnapshotBad(S, R) ==
    IF \E n \in DOMAIN R.versions : OutcomeBad(At_(S, R.versions[n]), R) = {} THEN {} ELSE {"snapshot"}
(* only insertions and changes of filter columns: whatever moment each table *)
(* was read at, tables sampled from others were sampled from the rows written *)
OnceBad(S, R) ==
    IF ~R.end.ok THEN {}
    ELSE LET F == At_(S, R.versions[Len(R.versions)])
             O == ObsSample(F, R)
             first(t) == {i \in Idx(F, t) : \E j \in Idx(S, t) : Cell(F, t, i, S.T[t].tag) = Cell(S, t, j, S.T[t].tag)}
             bad(t) == LET A == Along(F, O, t)
                       IN ~((A \cap first(t)) \subseteq O[t]) \/ (~IsTarget(S, t) /\ ~(O[t] \subseteq A))
         IN (IF \E t \in Planned(S) \ Pass(S) : JoinFks(S, t) # {} /\ bad(t) THEN {"once"} ELSE {})
            (* between tables read at different moments nothing is promised, but along the joins *)
            \cup (IF Broken(F, O) \cap UNION {JoinFks(S, t) : t \in Planned(S)} # {} THEN {"once.closure"} ELSE {})

RunBad(S, R) ==
    ExtraBad(S, R)
    \cup (IF R.end.err = "Timeout" THEN {"hangs"} ELSE {})         \* (every run comes to an end)
    \cup (IF ~R.moves THEN OutcomeBad(S, R) ELSE IF R.snap THEN SnapshotBad(S, R) ELSE OnceBad(S, R))
    \cup (IF R.same > 0 /\ ~R.cut /\ R.end.ok /\ S.runs[R.same].end.ok
             /\ \E d \in TruncSet(R.end.D, PlannedDest(S, R, R.end.D)) :
                   ~(d \in DOMAIN S.runs[R.same].end.dst /\ SameRows(R.end.dst[d], S.runs[R.same].end.dst[d]))
          THEN {"same"} ELSE {})
=============================================================================
