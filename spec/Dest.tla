-------------------------------- MODULE Dest --------------------------------
(***************************************************************************)
(* The destination: creation, truncation, writing with conflicts, and what *)
(* a complete, refused or interrupted run may leave.                       *)
(* D: table -> description, X: table -> sequence of rows.                  *)
(***************************************************************************)
EXTENDS Transform

(* --------------------------------------------------------- foreign keys *)
DCell(D, X, d, i, c) == X[d][i][ColIx(D[d].cols, c)]
DFks(D) == UNION {{[src |-> d, cols |-> f.cols, dst |-> f.dst, dcols |-> f.dcols] : f \in RangeOf(D[d].fks)} : d \in DOMAIN D}
FkHolds(D, X, f) ==
    \/ f.dst \notin DOMAIN X \cap DOMAIN D \/ f.src \notin DOMAIN X
    \/ LET keys == {[k \in DOMAIN f.dcols |-> DCell(D, X, f.dst, j, f.dcols[k])] : j \in DOMAIN X[f.dst]}
       IN \A i \in DOMAIN X[f.src] :
            LET v == [k \in DOMAIN f.cols |-> DCell(D, X, f.src, i, f.cols[k])]
            IN (\E k \in DOMAIN v : v[k] = NULL) \/ v \in keys
FkClosed(D, X) == \A f \in DFks(D) : FkHolds(D, X, f)

(* everything that refers to one of the tables N, directly or indirectly *)
TruncSet(D, N) == Grow({<<f.dst, f.src>> : f \in DFks(D)}, N \cap DOMAIN D)
PlannedDest(S, R, D) == {d \in DOMAIN D : \E t \in Planned(S) : D[d].chars = DestChars(S, R, t)}
DestCyclic(S, R, D) ==
    LET N == TruncSet(D, PlannedDest(S, R, D))
        E == {<<f.src, f.dst>> : f \in {g \in DFks(D) : g.src \in N /\ g.dst \in N}}
    IN CyclicIn(E, N)

(* ------------------------------------------------------------- creation *)
(* foreign keys of the created table of t: those that stay within the sampled tables *)
CreatedFks(S, R, D, t) ==
    {[cols |-> f.cols, dst |-> DestOf(S, R, D, f.dst), dcols |-> f.dcols]
        : f \in {g \in Declared(S, t) : g.dst \in Planned(S) /\ HasDest(S, R, D, g.dst)}}
Missing(S, R, D) == {t \in Planned(S) : ~HasDest(S, R, D, t)}

(* why a run must be refused; {} means it must not be *)
RunRefusal(S, R) ==
    (IF R.badconfig THEN {"config"} ELSE {})
    \cup (IF FilterRefused(S, R) THEN {"filters"} ELSE {})
    \cup (IF MultRefused(S, R) THEN {"multiplicity"} ELSE {})
    \cup (IF CompactRefused(S, R) THEN {"compaction"} ELSE {})
    \cup (IF R.kind # "db" THEN {}
          ELSE (IF RemapClash(S, R) THEN {"remap"} ELSE {})
               \cup (IF ~R.create /\ Missing(S, R, R.D0) # {} THEN {"missing-table"} ELSE {})
               \cup (IF DestCyclic(S, R, R.end.D) THEN {"dest-cycle"} ELSE {}))

(* -------------------------------------------------------------- writing *)
Base(S, R) ==
    LET TS == TruncSet(R.D0, PlannedDest(S, R, R.D0))
    IN [d \in DOMAIN R.end.D |->
          IF d \notin DOMAIN R.dst0 THEN <<>>
          ELSE IF R.kind = "dir" /\ d \in PlannedDest(S, R, R.end.D) THEN <<>>
          ELSE IF R.truncate /\ R.kind = "db" /\ d \in TS THEN <<>> ELSE R.dst0[d]]
PkMax(S, R, B) ==
    [t \in Planned(S) |->
        IF ~R.merge \/ ~SingleIntPk(S, t) THEN NULL
        ELSE LET d == DestOf(S, R, R.end.D, t)
                 vals == {DCell(R.end.D, B, d, i, S.T[t].pk[1]) : i \in DOMAIN B[d]}
             IN IF vals = {} THEN NULL ELSE MaxOf(vals)]

WrittenCols(S, R, Dd, t) == {c \in RangeOf(OutCols(S, R, t)) : c \notin RangeOf(Dd.computed)}
Default(Dd, c) ==
    IF c \in RangeOf(Dd.computed) \/ c = Dd.auto THEN WILD
    ELSE LET Q == {x \in RangeOf(Dd.defs) : x.col = c} IN IF Q = {} THEN NULL ELSE (CHOOSE x \in Q : TRUE).val
(* the rows written for t, keyed by (sampled row, copy), in the column order of its destination *)
Incoming(S, R, O, pkmax, M, t) ==
    LET Dd == R.end.D[DestOf(S, R, R.end.D, t)]
        oc == OutCols(S, R, t)
        W == WrittenCols(S, R, Dd, t)
        defs == [k \in DOMAIN Dd.cols |-> Default(Dd, Dd.cols[k])]
        src == [k \in DOMAIN Dd.cols |-> IF Dd.cols[k] \in W THEN ColIx(oc, Dd.cols[k]) ELSE 0]
    IN [key \in O[t] \X (0..(Copies(S, R, t) - 1)) |->
          LET row == OutRow(S, R, O, pkmax, M, t, key[1], key[2])
          IN [k \in DOMAIN Dd.cols |-> IF src[k] = 0 THEN defs[k] ELSE row[src[k]]]]

Fuzzy(v) == v = WILD \/ v <= DOM0
CellOK(S, R, e, v) == e = v \/ e = WILD \/ (e <= DOM0 /\ v # WILD /\ InDomain(S, R, DOM0 - e, v))
RowOK(S, R, e, row) == \A k \in DOMAIN e : CellOK(S, R, e[k], row[k])

KeyOf(Dd, key, row) == [k \in DOMAIN key |-> row[ColIx(Dd.cols, key[k])]]
Strategy(S, R, t) ==
    IF R.merge /\ t \in Pass(S) THEN "skip" ELSE R.conflict
Eff(S, R, Dd, t) ==
    LET st == Strategy(S, R, t)
    IN IF Dd.pk = <<>> THEN "error"
       ELSE IF st = "replace" /\ WrittenCols(S, R, Dd, t) \ RangeOf(Dd.pk) = {} THEN "skip" ELSE st
KeysOf(Dd) == (IF Dd.pk = <<>> THEN {} ELSE {Dd.pk}) \cup RangeOf(Dd.uniq)
ClashOn(Dd, key, a, b) == LET x == KeyOf(Dd, key, a) IN (\A k \in DOMAIN x : x[k] # NULL /\ ~Fuzzy(x[k])) /\ x = KeyOf(Dd, key, b)
Clash(Dd, a, b) == \E key \in KeysOf(Dd) : ClashOn(Dd, key, a, b)
PkClash(Dd, a, b) == Dd.pk # <<>> /\ ClashOn(Dd, Dd.pk, a, b)

(* expected rows of the destination table of t: a function from keys to rows *)
ExpTable(S, R, O, pkmax, M, B, t) ==
    LET d == DestOf(S, R, R.end.D, t)
        Dd == R.end.D[d]
        N == Incoming(S, R, O, pkmax, M, t)
        st == Eff(S, R, Dd, t)
        W == WrittenCols(S, R, Dd, t)
        hits(b) == {n \in DOMAIN N : PkClash(Dd, N[n], b)}
        upd(b, n) == [k \in DOMAIN b |-> IF Dd.cols[k] \in W /\ Dd.cols[k] \notin RangeOf(Dd.pk) THEN N[n][k]
                                         ELSE IF Dd.cols[k] \in RangeOf(Dd.computed) THEN WILD ELSE b[k]]
        old == [i \in {<<0, x>> : x \in DOMAIN B[d]} |->
                  IF st = "replace" /\ hits(B[d][i[2]]) # {} THEN upd(B[d][i[2]], CHOOSE n \in hits(B[d][i[2]]) : TRUE) ELSE B[d][i[2]]]
        fresh == {n \in DOMAIN N : \A x \in DOMAIN B[d] : ~(IF st = "skip" THEN Clash(Dd, N[n], B[d][x]) ELSE PkClash(Dd, N[n], B[d][x]))}
        new == IF st = "error" THEN N ELSE [n \in fresh |-> N[n]]
    IN IF B[d] = <<>> THEN N ELSE old @@ new

(* a run that writes these rows must fail *)
MustClash(S, R, O, pkmax, M, B, t) ==
    LET d == DestOf(S, R, R.end.D, t)
        Dd == R.end.D[d]
        N == Incoming(S, R, O, pkmax, M, t)
    IN Eff(S, R, Dd, t) = "error" /\ B[d] # <<>> /\ \E n \in DOMAIN N : \E x \in DOMAIN B[d] : Clash(Dd, N[n], B[d][x])
(* the property says nothing about such a run *)
Outside(S, R, O, pkmax, M, B, t) ==
    LET d == DestOf(S, R, R.end.D, t)
        Dd == R.end.D[d]
        N == Incoming(S, R, O, pkmax, M, t)
        st == Eff(S, R, Dd, t)
        small == Cardinality(DOMAIN N) <= 60
    IN \/ \E c \in WrittenCols(S, R, Dd, t) : c \notin RangeOf(Dd.cols)
       \/ \E k \in DOMAIN Dd.null : ~Dd.null[k] /\ Dd.cols[k] # Dd.auto /\ \E n \in DOMAIN N : N[n][k] = NULL
       \/ Compacting(S, R) /\ \E k \in DOMAIN Dd.null : /\ ~Dd.null[k] /\ Dd.cols[k] \in WrittenCols(S, R, Dd, t)
                                                        /\ \E n \in DOMAIN N : N[n][k] = WILD
       \/ small /\ \E a, b \in DOMAIN N : a # b /\ Clash(Dd, N[a], N[b])
       \/ st = "replace" /\ B[d] # <<>> /\ \E n \in DOMAIN N : \E x \in DOMAIN B[d] : Clash(Dd, N[n], B[d][x]) /\ ~PkClash(Dd, N[n], B[d][x])
       \/ st = "replace" /\ small /\ B[d] # <<>> /\ \E a, b \in DOMAIN N : \E x \in DOMAIN B[d] :
              a # b /\ PkClash(Dd, N[a], B[d][x]) /\ \E key \in RangeOf(Dd.uniq) : ClashOn(Dd, key, N[a], N[b])

(* how often each element occurs *)
SeqBag(X) == FoldLeft(LAMBDA acc, x : [acc EXCEPT ![x] = @ + 1], [x \in RangeOf(X) |-> 0], X)
FunBag(E) == FoldLeft(LAMBDA acc, k : [acc EXCEPT ![E[k]] = @ + 1], [x \in {E[k] : k \in DOMAIN E} |-> 0], SetToSeq(DOMAIN E))

(* E: function key -> expected row, X: observed rows *)
SameBag(S, R, E0, X) ==
    LET E == TLCEval(E0)
        ER == {E[k] : k \in DOMAIN E}
        XR == RangeOf(X)
        fuzzy == \E e \in ER : \E k \in DOMAIN e : Fuzzy(e[k])
    IN IF Cardinality(DOMAIN E) # Len(X) THEN FALSE
       ELSE IF ~fuzzy
            THEN ER = XR /\ (Cardinality(ER) = Len(X) \/ FunBag(E) = SeqBag(X))
            ELSE /\ \A x \in XR : \E e \in ER : RowOK(S, R, e, x)
                 /\ \A e \in ER : \E x \in XR : RowOK(S, R, e, x)
SameRows(X, Y) ==
    Len(X) = Len(Y) /\ RangeOf(X) = RangeOf(Y) /\ (Cardinality(RangeOf(X)) = Len(X) \/ SeqBag(X) = SeqBag(Y))
SubRows(X, Y) ==     \* every row of X is in Y as often
    RangeOf(X) \subseteq RangeOf(Y)
    /\ (Cardinality(RangeOf(X)) = Len(X)
        \/ LET bx == SeqBag(X) by == SeqBag(Y) IN \A x \in RangeOf(X) : bx[x] <= by[x])
=============================================================================
