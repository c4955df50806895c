------------------------------- MODULE Moving --------------------------------
(***************************************************************************)
(* A run while others change the source.  The sample of a table that other *)
(* tables are sampled from is kept when it is drawn; the rest are read     *)
(* when they are written.  Others commit one transaction at any moment: it *)
(* adds a row to some of the tables, or moves references.                  *)
(*   snap    the source is read as it was at one moment                    *)
(*   Design  "right" or a wrong one                                        *)
(***************************************************************************)
EXTENDS OrderMC

CONSTANT Design
VARIABLES plan,
          snap,
          first,        \* the source when the run began
          src,          \* the source as it is
          frozen,       \* the source as the run sees it, when it is at one moment
          change,       \* what others did: "" nothing yet
          O,            \* samples kept: table -> rows
          W             \* rows written: table -> rows
mvars == <<g, layers, fwd, over, plan, snap, first, src, frozen, change, O, W>>

Some(G) == LET R == Scn(G) IN [R EXCEPT !.P.targets = [t \in DOMAIN @ |-> IF @[t].all THEN @[t] ELSE [@[t] EXCEPT !.amount = 1]]]
At(v) == Some(g) @@ [plan |-> plan, src |-> v, strs |-> <<>>]
S == At(src)
Plan_ == DOMAIN plan.queries
Kept == {t \in Plan_ : \E u \in Plan_ : t \in DepsOf(S, u)}
View == IF snap THEN frozen ELSE src

(* two rows in every table, row k refers to row k *)
Joined == UNION {JoinFks(S, t) : t \in Plan_}
Rows0(G) == LET R == Scn(G) IN [t \in Tables(R) |-> [i \in 1..2 |-> [k \in DOMAIN R.T[t].cols |-> i]]]
Added(v, T, new) ==
    [t \in DOMAIN v |-> IF t \notin T THEN v[t]
       ELSE Append(v[t], [k \in DOMAIN S0.T[t].cols |->
            IF S0.T[t].cols[k] = "id" THEN 3
            ELSE LET f == CHOOSE x \in Declared(S0, t) : x.cols[1] = S0.T[t].cols[k] IN IF new /\ f.dst \in T THEN 3 ELSE 1])]
Moved(v, t) == [v EXCEPT ![t] = [i \in DOMAIN v[t] |-> [k \in DOMAIN v[t][i] |-> IF S0.T[t].cols[k] = "id" \/ i = 1 THEN v[t][i][k] ELSE 1]]]

MInit ==
    /\ Init /\ RefusalReasons(S0) = {}
    /\ \A t \in Tables(S0) : t \in Pass(S0) \/ \E f \in Edges(S0) : t \in {f.src, f.dst}      \* (the others do not matter)
    /\ plan = PlanOf(g, Layers(S0))
    /\ snap \in BOOLEAN
    /\ src = Rows0(g) /\ first = src /\ frozen = src /\ change = ""
    /\ O = << >> /\ W = << >>

(* a sample of t, given the samples kept *)
Drawn(v, t, X) == Allowed(At(v), [u \in Plan_ |-> IF u \in DOMAIN O THEN O[u] ELSE {}], t, X)
Keep(t) ==
    /\ t \in Kept \ DOMAIN O /\ DepsOf(S, t) \subseteq DOMAIN O
    /\ \E X \in SUBSET Idx(At(View), t) : Drawn(View, t, X) /\ O' = O @@ [u \in {t} |-> X]
    /\ UNCHANGED <<g, layers, fwd, over, plan, snap, first, src, frozen, change, W>>
Copy(t) ==
    /\ Kept \subseteq DOMAIN O /\ t \in Plan_ \ DOMAIN W
    /\ LET v == IF Design = "seen as it is" THEN src ELSE View
       IN \E X \in SUBSET Idx(At(v), t) :
             /\ IF t \in Kept /\ Design # "drawn again" THEN X = O[t] ELSE Drawn(v, t, X)
             /\ W' = W @@ [u \in {t} |-> X]
    /\ UNCHANGED <<g, layers, fwd, over, plan, snap, first, src, frozen, change, O>>
Done == DOMAIN W = Plan_
Others ==
    /\ change = "" /\ ~Done
    /\ \/ \E T \in (SUBSET Tables(S0)) \ {{}}, new \in BOOLEAN :
             /\ snap => T = Tables(S0)
             /\ new => \E t \in T : \E f \in Declared(S0, t) : f.dst \in T
             /\ src' = Added(src, T, new)
             /\ change' = ToJson([add |-> SetToSeq(T), new |-> new])
       (* with a row added to every table or not *)
       \/ snap /\ \E t \in Tables(S0), T \in {{}, Tables(S0)} :
                     /\ Declared(S0, t) # {} /\ src' = Moved(Added(src, T, FALSE), t)
                     /\ change' = ToJson([add |-> SetToSeq(T), new |-> FALSE, move |-> t])
    (* it is read as it was when the first table was read *)
    /\ frozen' = IF O = << >> /\ W = << >> THEN src' ELSE frozen
    /\ UNCHANGED <<g, layers, fwd, over, plan, snap, first, O, W>>
(* the order makes no difference, so the first ready one is taken; the change may come anywhere between *)
ReadyK == {t \in Kept \ DOMAIN O : DepsOf(S, t) \subseteq DOMAIN O}
ReadyC == Plan_ \ DOMAIN W
MNext == \/ ReadyK # {} /\ Keep(CHOOSE t \in ReadyK : TRUE)
         \/ ReadyK = {} /\ ReadyC # {} /\ Copy(CHOOSE t \in ReadyC : TRUE)
         \/ Others
MSpec == MInit /\ [][MNext]_mvars

(* ------------------------------------------------------------ invariants *)
Good_(v) == /\ \A t \in Plan_ : \A i \in W[t] : i \in Idx(At(v), t)
            /\ \A t \in Plan_ : Allowed(At(v), W, t, W[t])
            /\ Broken(At(v), W) = {}
OneMoment == Done /\ snap => Good_(first) \/ Good_(src)
DrawnOnce == Done /\ ~snap => LET F == At(src)
                     IN /\ \A t \in Plan_ \ Pass(F) : JoinFks(F, t) # {} =>
                             LET A == Along(F, W, t)
                             IN /\ (A \cap Idx(At(first), t)) \subseteq W[t]
                                /\ IsTarget(F, t) \/ W[t] \subseteq A
                        (* between tables read at different moments nothing is promised, but along the joins *)
                        /\ Broken(F, W) \cap Joined = {}
MEmit == Done /\ change # "" => PrintT("CASE " \o ToJson([n |-> g.n, role |-> g.role, incdep |-> TRUE, change |-> change, snap |-> snap,
             e |-> [q \in DOMAIN SetToSeq(Pairs(g)) |-> <<SetToSeq(Pairs(g))[q], g.e[SetToSeq(Pairs(g))[q]]>>]]))
=============================================================================
