--------------------------------- MODULE Run ---------------------------------
(***************************************************************************)
(* A run against a destination as a machine: refuse, create what is        *)
(* missing, empty what is to be emptied, write table by table and row by   *)
(* row; it may be interrupted and started again at any moment.  Every      *)
(* state is one that others may see.  The clauses that judge recorded runs *)
(* (Conform) are invariants here: the design satisfies them, and the       *)
(* designs that are known to be wrong (constant Design) do not.            *)
(*   c.n tables, c.e[i,j] i refers to j (j < i), c.st[i] one of            *)
(*     keep  sampled, exists at the destination                            *)
(*     new   sampled, missing there      other  exists there, not sampled  *)
(*     none  neither                                                       *)
(*   c.had[i]  its rows there: "no", "own" (other keys), "same" (a key     *)
(*             that the sample has too), c.truncate, c.create, c.conflict  *)
(***************************************************************************)
EXTENDS Conform

CONSTANT Design         \* "right" or a wrong one
VARIABLES c,            \* the configuration
          S, R,         \* it as a scenario and a run (see Conform)
          X,            \* the rows at the destination: table -> rows
          phase,        \* "check", "create", "truncate", "write", "done", "refused", "failed"
          todo,         \* tables left in this phase
          at,           \* rows of the current table written, <<table, n>>
          again         \* started anew after an interruption
vars == <<c, S, R, X, phase, todo, at, again>>

Name(i) == <<"s.a", "s.b", "s.c", "s.d">>[i]
Chars(i) == <<115, 46, 96 + i>>
RefCol(j) == <<"r1", "r2", "r3", "r4">>[j]
Refs(C, i) == SelectSeq([j \in 1..C.n |-> j], LAMBDA j : C.e[<<i, j>>])
ColsOf(C, i) == <<"id", "v">> \o [k \in DOMAIN Refs(C, i) |-> RefCol(Refs(C, i)[k])]
There(C) == {i \in 1..C.n : C.st[i] \in {"keep", "other"}}
Wanted(C) == {i \in 1..C.n : C.st[i] \in {"keep", "new"}}
FksOf(C, i, Among) == LET J == SelectSeq(Refs(C, i), LAMBDA j : j \in Among)
                      IN [k \in DOMAIN J |-> [cols |-> <<RefCol(J[k])>>, dst |-> Name(J[k]), dcols |-> <<"id">>]]
Map(I, f(_)) == [t \in {Name(i) : i \in I} |-> f(CHOOSE i \in I : Name(i) = t)]
(* two rows in every source table; row k refers to row k *)
SrcRows(C, i) == [k \in 1..2 |-> <<k, 10 + k>> \o [m \in DOMAIN Refs(C, i) |-> k]]
OldKeys(C, i) == CASE C.had[i] = "no" -> <<>> [] C.had[i] = "own" -> <<7, 8>> [] C.had[i] = "same" -> <<2, 7>>
(* old rows refer to old rows, where there are any *)
OldRows(C, i) == LET K == OldKeys(C, i)
                 IN [k \in DOMAIN K |-> <<K[k], 20 + k>> \o [m \in DOMAIN Refs(C, i) |->
                        LET j == Refs(C, i)[m] IN IF j \in There(C) /\ OldKeys(C, j) # <<>> THEN OldKeys(C, j)[k] ELSE NULL]]
Desc(C, i, Among) == [chars |-> Chars(i), schema |-> "s", cols |-> ColsOf(C, i), types |-> [k \in DOMAIN ColsOf(C, i) |-> 1],
                      null |-> [k \in DOMAIN ColsOf(C, i) |-> k > 2], pk |-> <<"id">>, uniq |-> <<>>, fks |-> FksOf(C, i, Among),
                      computed |-> <<>>, defs |-> <<>>, auto |-> ""]
Rule == [all |-> TRUE, percent |-> 100, amount |-> -1, in |-> <<>>, like |-> <<>>, sql |-> <<>>]
ScnOf(C) ==
    [id |-> 0, dialect |-> "none", omode |-> "det", strs |-> <<>>, zerof |-> <<>>, fl |-> <<>>,
     T |-> Map(1..C.n, LAMBDA i : [schema |-> "s", chars |-> Chars(i), pk |-> <<"id">>, cols |-> ColsOf(C, i), isint |-> ColsOf(C, i),
                                   uniq |-> <<>>, auto |-> FALSE, tag |-> "", fks |-> FksOf(C, i, 1..C.n)]),
     src |-> Map(1..C.n, LAMBDA i : SrcRows(C, i)),
     desc |-> Map(1..C.n, LAMBDA i : Desc(C, i, 1..C.n)),
     P |-> [select |-> SetToSeq({Chars(i) : i \in Wanted(C)}), passthrough |-> <<>>, ignore |-> <<>>,
            targets |-> Map(Wanted(C), LAMBDA i : Rule), constraints |-> << >>, infer |-> "none", incdep |-> FALSE,
            extra |-> <<>>, ignorefks |-> <<>>],
     plan |-> [ok |-> TRUE, err |-> "", passthrough |-> <<>>, queries |-> Map(Wanted(C), LAMBDA i : [outer |-> FALSE, joins |-> <<>>])]]
(* the run as it begins; `end` is what the destination would be like afterwards *)
RunOf(C, D0, X0) ==
    LET D1 == D0 @@ Map(IF C.create THEN Wanted(C) ELSE {}, LAMBDA i : Desc(C, i, Wanted(C)))
    IN [create |-> C.create, truncate |-> C.truncate, kind |-> "db", merge |-> FALSE, conflict |-> C.conflict, remap |-> <<>>, infer |-> "none",
        mult |-> [m |-> 1, ignore |-> <<>>, extra |-> << >>, ignpk |-> << >>],
        compact |-> [pk |-> FALSE, auto |-> FALSE, cols |-> << >>, start |-> 1], filters |-> << >>, doms |-> <<>>,
        cut |-> FALSE, same |-> 0, badconfig |-> FALSE, D0 |-> D0, dst0 |-> X0, planeq |-> TRUE, moves |-> FALSE, snap |-> FALSE, versions |-> <<>>,
        end |-> [ok |-> TRUE, err |-> "", D |-> D1, dst |-> [d \in DOMAIN D1 |-> IF d \in DOMAIN X0 THEN X0[d] ELSE <<>>],
                 src |-> ScnOf(C).src, objs |-> TRUE, next |-> << >>]]
Start(C) == LET D0 == Map(There(C), LAMBDA i : Desc(C, i, There(C)))
            IN [s |-> ScnOf(C), r |-> RunOf(C, D0, Map(There(C), LAMBDA i : OldRows(C, i)))]

(* ------------------------------------------------------------ the machine *)
(* tables referred to (also through others) at the destination *)
Above(t) == Grow({<<f.src, f.dst>> : f \in DFks(R.end.D)}, {f.dst : f \in {g \in DFks(R.end.D) : g.src = t}})
InTrunc == IF ~R.truncate THEN {}
           ELSE IF Design = "only sampled tables emptied" THEN PlannedDest(S, R, R.D0)
           ELSE TruncSet(R.D0, PlannedDest(S, R, R.D0))
Expected == ExpState(S, R, DetSample(S))

Check == /\ phase = "check"
         /\ IF RunRefusal(S, R) # {} /\ Design # "refused late"
            THEN phase' = "refused" /\ UNCHANGED <<X, todo>>
            ELSE phase' = "create" /\ todo' = (IF R.create THEN Missing(S, R, R.D0) ELSE {}) /\ UNCHANGED X
         /\ UNCHANGED <<c, S, R, at, again>>
Create == /\ phase = "create"
          /\ IF todo = {} THEN phase' = "truncate" /\ todo' = InTrunc /\ UNCHANGED X
             ELSE \E t \in todo : /\ X' = X @@ [x \in {t} |-> <<>>] /\ todo' = todo \ {t} /\ UNCHANGED phase
          /\ UNCHANGED <<c, S, R, at, again>>
Truncate ==
    /\ phase = "truncate"
    /\ IF todo = {} THEN phase' = "write" /\ todo' = Planned(S) /\ UNCHANGED X
       ELSE \E t \in todo :          \* referring tables first
               /\ Design = "emptied in any order" \/ \A u \in todo : t \notin Above(u) \/ u = t
               /\ X' = [X EXCEPT ![t] = <<>>] /\ todo' = todo \ {t} /\ UNCHANGED phase
    /\ UNCHANGED <<c, S, R, at, again>>
Rows_(t) == S.src[t]
Hit(t, row) == {i \in DOMAIN X[t] : X[t][i][1] = row[1]}
Write ==
    /\ phase = "write"
    /\ IF at # <<>>
       THEN LET t == at[1] row == S.src[t][at[2]]
                last == at[2] = Len(S.src[t])
            IN /\ at' = IF last THEN <<>> ELSE <<t, at[2] + 1>>
               /\ IF Hit(t, row) = {} THEN X' = [X EXCEPT ![t] = Append(@, row)] /\ UNCHANGED phase
                  ELSE IF R.conflict = "skip" THEN UNCHANGED <<X, phase>>
                  ELSE IF R.conflict = "replace" THEN X' = [X EXCEPT ![t][CHOOSE i \in Hit(t, row) : TRUE] = row] /\ UNCHANGED phase
                  ELSE phase' = "failed" /\ UNCHANGED X
               /\ UNCHANGED todo
       ELSE IF todo = {} THEN phase' = "done" /\ UNCHANGED <<X, todo, at>>
       ELSE \E t \in todo :
               /\ Design = "written in any order" \/ Above(t) \cap (todo \ {t}) = {}
               /\ t \in DOMAIN X
               /\ at' = <<t, 1>> /\ todo' = todo \ {t} /\ UNCHANGED <<X, phase>>
    /\ UNCHANGED <<c, S, R, again>>
(* interrupted: what others could see last is what there is *)
Interrupt ==
    /\ ~again /\ R.truncate /\ phase \in {"create", "truncate", "write", "failed"}
    /\ again' = TRUE /\ phase' = "check" /\ todo' = {} /\ at' = <<>>
    /\ R' = RunOf(c, [d \in DOMAIN X |-> R.end.D[d]], X)
    /\ UNCHANGED <<c, S, X>>
Next == Check \/ Create \/ Truncate \/ Write \/ Interrupt

(* ------------------------------------------------------------- invariants *)
Now == [R EXCEPT !.end.ok = phase = "done", !.end.dst = X, !.end.D = [d \in DOMAIN X |-> R.end.D[d]]]
Final == [R EXCEPT !.end.dst = Expected]
Doomed == FkDoomed(S, R, DetSample(S)) \/ ~FkClosed(R.D0, R.dst0)
(* every visible state is one that may be seen *)
Seen == RunRefusal(S, R) = {} => LookBad(S, Final, X) = {}
(* the machine does what the clauses describe *)
Outcome == phase \in {"done", "failed"} => RunBad(S, Now) = {}
Refused == phase = "refused" => RunBad(S, [Now EXCEPT !.end.ok = FALSE, !.end.D = R.end.D]) = {}
Asked == phase \in {"create", "truncate", "write"} => RunRefusal(S, R) = {}
(* an interruption leaves no trace after the next truncating run *)
First == Start(c).r
SameAgain == again /\ phase = "done" =>
    LET E == ExpState(S, First, DetSample(S))
    IN \A d \in TruncSet(R.end.D, PlannedDest(S, R, R.end.D)) : SameRows(X[d], E[d])
NoDeadlock == phase \in {"done", "failed", "refused"} \/ ENABLED Next
=============================================================================
