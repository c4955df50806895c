------------------------------ MODULE PlanLang ------------------------------
(***************************************************************************)
(* The plan language: which rows a query denotes, and simplification.      *)
(*   S.cols[t]  column names of table t       S.src[t]  its rows           *)
(*   X[t]       the rows sampled for table t  S.strs    texts (see Values) *)
(* Conditions   [k: "true" | "false"]  [k: "op", op, col, val]             *)
(*              [k: "in", cols, neg, vals, sub]  (sub: <<>> or <<statement>>) *)
(*              [k: "and" | "or", args]  [k: "random", n] (probability n/3) *)
(* Statements   [k: "select", from, cols, where, limit, joins, outer]      *)
(*              [k: "union", parts];  from, right: [t, sampled]            *)
(***************************************************************************)
EXTENDS Values, TLC, SequencesExt

CIx(cols, c) == CHOOSE i \in DOMAIN cols : cols[i] = c
RefRows(S, X, ref) == IF ref.sampled THEN X[ref.t] ELSE S.src[ref.t]

(* ------------------------------------------------- weights of truth values *)
(* <<T, F, U>>: how many of the equally likely outcomes give each truth value *)
Tot(w) == w[1] + w[2] + w[3]
Det(v) == CASE v = "T" -> <<1, 0, 0>> [] v = "F" -> <<0, 1, 0>> [] v = "U" -> <<0, 0, 1>>
WAnd(a, b) == LET t == a[1] * b[1]
                  f == a[2] * Tot(b) + (Tot(a) - a[2]) * b[2]
              IN <<t, f, Tot(a) * Tot(b) - t - f>>
WNot(a) == <<a[2], a[1], a[3]>>
WOr(a, b) == WNot(WAnd(WNot(a), WNot(b)))

RECURSIVE Weight(_, _, _, _, _), WFold(_, _, _, _, _, _), Values_(_, _, _)
WFold(S, X, t, args, row, and) ==
    IF args = <<>> THEN (IF and THEN Det("T") ELSE Det("F"))
    ELSE LET a == Weight(S, X, t, Head(args), row)
             b == WFold(S, X, t, Tail(args), row, and)
         IN IF and THEN WAnd(a, b) ELSE WOr(a, b)
Weight(S, X, t, c, row) ==
    CASE c.k = "true"  -> Det("T")
      [] c.k = "false" -> Det("F")
      [] c.k = "op"    -> Det(Cmp3(S.strs, c.op, row[CIx(S.cols[t], c.col)], c.val))
      [] c.k = "and"   -> WFold(S, X, t, c.args, row, TRUE)
      [] c.k = "or"    -> WFold(S, X, t, c.args, row, FALSE)
      [] c.k = "random" -> IF c.n <= 0 THEN Det("F") ELSE IF c.n >= 3 THEN Det("T") ELSE <<c.n, 3 - c.n, 0>>
      [] c.k = "in"    ->
            LET mine == [k \in DOMAIN c.cols |-> row[CIx(S.cols[t], c.cols[k])]]
                list == IF c.sub = <<>> THEN RangeOf(c.vals) ELSE Values_(S, X, c.sub[1])
                v == Or3({And3({IF mine[k] = NULL \/ x[k] = NULL THEN "U" ELSE B3(mine[k] = x[k]) : k \in DOMAIN mine}) : x \in list})
            IN Det(IF c.neg THEN Not3(v) ELSE v)

JoinHit(S, X, t, j, row) ==
    \E r \in RangeOf(RefRows(S, X, j.right)) :
        \A k \in DOMAIN j.lcols : LET a == row[CIx(S.cols[t], j.lcols[k])]
                                  IN a # NULL /\ a = r[CIx(S.cols[j.right.t], j.rcols[k])]
Joined(S, X, st, row) ==
    st.joins = <<>> \/ (IF st.outer THEN \E n \in DOMAIN st.joins : JoinHit(S, X, st.from.t, st.joins[n], row)
                                    ELSE \A n \in DOMAIN st.joins : JoinHit(S, X, st.from.t, st.joins[n], row))
(* one select: its candidate rows with the weight of each *)
Cands(S, X, st) ==
    LET R == RefRows(S, X, st.from)
        wt(row) == IF ~Joined(S, X, st, row) THEN Det("F")
                   ELSE IF st.where = <<>> THEN Det("T") ELSE Weight(S, X, st.from.t, st.where[1], row)
        cols == S.cols[st.from.t]
        proj(row) == IF st.cols = <<>> THEN row ELSE [k \in DOMAIN st.cols |-> row[CIx(cols, st.cols[k])]]
    IN [i \in DOMAIN R |-> [row |-> proj(R[i]), w |-> wt(R[i])]]
Parts(st) == IF st.k = "union" THEN st.parts ELSE <<st>>
PartCols(S, p) == IF p.cols = <<>> THEN S.cols[p.from.t] ELSE p.cols
OutColsOf(S, st) == PartCols(S, Parts(st)[1])
OneNaming(S, st) == \A p \in RangeOf(Parts(st)) : PartCols(S, p) = OutColsOf(S, st)
(* the rows of a statement without limits and chance (a sub-query) *)
Values_(S, X, st) ==
    UNION {LET C == Cands(S, X, Parts(st)[n]) IN {C[i].row : i \in {j \in DOMAIN C : C[j].w[1] > 0}} : n \in DOMAIN Parts(st)}

(* -------------------------------------------------------- equality (C07) *)
Limited(p) == p.limit >= 0
LiveParts(S, X, st) ==
    LET P == Parts(st)
    IN SelectSeq(P, LAMBDA p : p.limit # 0 /\ LET C == Cands(S, X, p) IN \E i \in DOMAIN C : C[i].w[1] > 0)
(* chance that a row with these values is absent, as a fraction *)
Absent(S, X, ps, v) ==
    LET one(acc, p) == LET C == Cands(S, X, p)
                       IN FoldLeft(LAMBDA a, x : IF x.row = v THEN <<a[1] * (x.w[2] + x.w[3]), a[2] * Tot(x.w)>> ELSE a, acc, C)
    IN FoldLeft(one, <<1, 1>>, ps)
RowValues(S, X, ps) == UNION {LET C == Cands(S, X, ps[n]) IN {C[i].row : i \in DOMAIN C} : n \in DOMAIN ps}
Frac(a, b) == a[1] * b[2] = b[1] * a[2]
SeqCount(s, P(_)) == Cardinality({i \in DOMAIN s : P(s[i])})
SameWeights(C, D) == LET sure(E, v) == SeqCount(E, LAMBDA x : x.row = v /\ x.w[1] = Tot(x.w))
                         maybe(E, v) == SeqCount(E, LAMBDA x : x.row = v /\ x.w[1] > 0)
                     IN \A v \in {C[i].row : i \in DOMAIN C} \cup {D[i].row : i \in DOMAIN D} :
                            sure(C, v) = sure(D, v) /\ maybe(C, v) = maybe(D, v)
SameLimited(S, X, a, b) ==       \* limited parts correspond
    LET A == SelectSeq(LiveParts(S, X, a), Limited)
        B == SelectSeq(LiveParts(S, X, b), Limited)
        eq(p, q) == p.limit = q.limit /\ SameWeights(Cands(S, X, p), Cands(S, X, q))
    IN Len(A) = Len(B) /\ \A p \in RangeOf(A) : SeqCount(A, LAMBDA q : eq(p, q)) = SeqCount(B, LAMBDA q : eq(p, q))
SameMeaning(S, X, a, b) ==
    LET A == SelectSeq(LiveParts(S, X, a), LAMBDA p : ~Limited(p))
        B == SelectSeq(LiveParts(S, X, b), LAMBDA p : ~Limited(p))
    IN /\ Len(OutColsOf(S, a)) = Len(OutColsOf(S, b))
       /\ OneNaming(S, a) => OutColsOf(S, a) = OutColsOf(S, b)
       /\ \A v \in RowValues(S, X, A) \cup RowValues(S, X, B) : Frac(Absent(S, X, A, v), Absent(S, X, B, v))
       /\ SameLimited(S, X, a, b)
       /\ (a.k = "select" /\ b.k = "select" /\ ~Limited(a)) => SameWeights(Cands(S, X, a), Cands(S, X, b))

(* --------------------------------------------------- what a table gets (C27) *)
WithinBag(A, B) == \A v \in RangeOf(A) : SeqCount(A, LAMBDA x : x = v) <= SeqCount(B, LAMBDA x : x = v)
Rows_(C, P(_)) == LET idx == SetToSeq({i \in DOMAIN C : P(C[i])}) IN [n \in DOMAIN idx |-> C[idx[n]].row]
Maybe(C) == Rows_(C, LAMBDA x : x.w[1] > 0)
Sure(C) == Rows_(C, LAMBDA x : x.w[1] = Tot(x.w))
Denotes(S, X, st, cols, Y) ==      \* Y: the rows written, over columns cols
    IF cols # OutColsOf(S, st) THEN FALSE
    ELSE IF st.k = "select"
    THEN LET C == Cands(S, X, st)
             m == Maybe(C) s == Sure(C)
         IN WithinBag(Y, m) /\ (IF Limited(st) THEN Len(Y) <= st.limit /\ Len(Y) >= Least(st.limit, Len(s)) ELSE WithinBag(s, Y))
    ELSE LET P == st.parts
             D == [n \in DOMAIN P |-> Cands(S, X, P[n])]
             may(n) == RangeOf(Maybe(D[n]))
             sure(n) == RangeOf(Sure(D[n]))
             free == UNION {may(n) : n \in {q \in DOMAIN P : ~Limited(P[q])}}
             budget == FoldLeft(LAMBDA a, p : IF Limited(p) THEN a + p.limit ELSE a, 0, P)
         \* a row is not there once per part that has it (rows that are alike may stay apart)
         IN /\ \A v \in RangeOf(Y) : \E n \in DOMAIN P :
                   SeqCount(Y, LAMBDA x : x = v) <= SeqCount(D[n], LAMBDA x : x.row = v /\ x.w[1] > 0)
            /\ RangeOf(Y) \subseteq UNION {may(n) : n \in DOMAIN P}
            /\ \A n \in DOMAIN P : IF Limited(P[n])
                                   THEN Cardinality(may(n)) = Len(Maybe(D[n])) =>
                                            Cardinality(RangeOf(Y) \cap may(n)) >= Least(P[n].limit, Cardinality(sure(n)))
                                   ELSE sure(n) \subseteq RangeOf(Y)
            /\ Cardinality(RangeOf(Y) \ free) <= budget

(* ------------------------------------ the design of simplification (checked in PlanLangMC) *)
RECURSIVE SimpC(_), SimpArgs(_, _), SimpS(_)
TrueC == [k |-> "true"]
FalseC == [k |-> "false"]
SimpArgs(args, k) ==
    IF args = <<>> THEN <<>>
    ELSE LET a == SimpC(Head(args))
         IN (IF a.k = (IF k = "and" THEN "true" ELSE "false") THEN <<>> ELSE IF a.k = k THEN a.args ELSE <<a>>)
            \o SimpArgs(Tail(args), k)
SimpC(c) ==
    CASE c.k \in {"and", "or"} ->
            LET L == SimpArgs(c.args, c.k)
            IN IF \E n \in DOMAIN L : L[n].k = (IF c.k = "and" THEN "false" ELSE "true")
               THEN (IF c.k = "and" THEN FalseC ELSE TrueC)
               ELSE IF L = <<>> THEN (IF c.k = "and" THEN TrueC ELSE FalseC)
               ELSE IF Len(L) = 1 THEN L[1] ELSE [k |-> c.k, args |-> L]
      [] c.k = "random" -> IF c.n <= 0 THEN FalseC ELSE IF c.n >= 3 THEN TrueC ELSE c
      [] c.k = "in" -> IF c.sub = <<>> THEN c ELSE [c EXCEPT !.sub = <<SimpS(c.sub[1])>>]
      [] OTHER -> c
SimpSel(p) == IF p.where = <<>> THEN p
              ELSE LET w == SimpC(p.where[1]) IN [p EXCEPT !.where = IF w.k = "true" THEN <<>> ELSE <<w>>]
DeadSel(p) == p.where # <<>> /\ p.where[1].k = "false"
SimpS(st) ==
    IF st.k = "select" THEN SimpSel(st)
    ELSE LET P == SelectSeq([n \in DOMAIN st.parts |-> SimpSel(st.parts[n])], LAMBDA p : ~DeadSel(p))
         IN IF P = <<>> THEN SimpSel(st.parts[1])
            ELSE IF Len(P) = 1 THEN P[1]
            ELSE IF \A n \in DOMAIN P : P[n].from = P[1].from /\ P[n].cols = P[1].cols /\ P[n].limit < 0 /\ P[n].joins = <<>>
            THEN SimpSel([P[1] EXCEPT !.where = <<[k |-> "or", args |-> [n \in DOMAIN P |->
                             IF P[n].where = <<>> THEN TrueC ELSE P[n].where[1]]]>>])
            ELSE [k |-> "union", parts |-> P]
=============================================================================
