------------------------------- MODULE KeysMC -------------------------------
(***************************************************************************)
(* What happens to keys: compaction, multiplication, merging and their     *)
(* combinations over every small arrangement of foreign keys.  The rows    *)
(* that the specification wants written refer to each other exactly as the *)
(* sampled rows did, have keys of their own, and leave the rows of the     *)
(* destination alone.  Every case is printed, to be run by the code.       *)
(*   c.shape  ref    b -> a               self   a -> a                    *)
(*            two    b -> a twice         chain  c -> b -> a, b's key is   *)
(*            pair   b -> a, two columns         the foreign key           *)
(*            part   c -> b, two columns, one of them b's foreign key to a *)
(*   c.keys   keys of a      c.refs  which row each referring row refers   *)
(*   to (0: none)            c.comp  no, pk (all keys), a (those of a)     *)
(*   c.start, c.m, c.ign (a is not multiplied)                             *)
(*   c.max    "-" no merge, "none" destination empty, else its largest key *)
(***************************************************************************)
EXTENDS Conform, Json

CONSTANT Deep
VARIABLES c, S, R
vars == <<c, S, R>>

A == "s.a" B == "s.b" C == "s.c"
Fk(cols, d, dcols) == [cols |-> cols, dst |-> d, dcols |-> dcols]
Tab(cols, pk, fks) == [cols |-> cols, pk |-> pk, fks |-> fks]
Shape(x) ==
    CASE x = "ref"   -> (A :> Tab(<<"id", "v">>, <<"id">>, <<>>)) @@ (B :> Tab(<<"id", "r">>, <<"id">>, <<Fk(<<"r">>, A, <<"id">>)>>))
      [] x = "self"  -> (A :> Tab(<<"id", "v", "r">>, <<"id">>, <<Fk(<<"r">>, A, <<"id">>)>>))
      [] x = "two"   -> (A :> Tab(<<"id", "v">>, <<"id">>, <<>>))
                        @@ (B :> Tab(<<"id", "r", "q">>, <<"id">>, <<Fk(<<"r">>, A, <<"id">>), Fk(<<"q">>, A, <<"id">>)>>))
      [] x = "chain" -> (A :> Tab(<<"id", "v">>, <<"id">>, <<>>)) @@ (B :> Tab(<<"id", "v">>, <<"id">>, <<Fk(<<"id">>, A, <<"id">>)>>))
                        @@ (C :> Tab(<<"id", "r">>, <<"id">>, <<Fk(<<"r">>, B, <<"id">>)>>))
      [] x = "pair"  -> (A :> Tab(<<"x", "y">>, <<"x", "y">>, <<>>))
                        @@ (B :> Tab(<<"id", "rx", "ry">>, <<"id">>, <<Fk(<<"rx", "ry">>, A, <<"x", "y">>)>>))
      [] x = "part"  -> (A :> Tab(<<"id", "v">>, <<"id">>, <<>>))
                        @@ (B :> Tab(<<"x", "y">>, <<"x", "y">>, <<Fk(<<"x">>, A, <<"id">>)>>))
                        @@ (C :> Tab(<<"id", "rx", "ry">>, <<"id">>, <<Fk(<<"rx", "ry">>, B, <<"x", "y">>)>>))
Chars(t) == CASE t = A -> <<115, 46, 97>> [] t = B -> <<115, 46, 98>> [] t = C -> <<115, 46, 99>>
(* the two rows that are referred to, and the rows that refer *)
Rows(k, t) ==
    LET at(j, f(_)) == IF j = 0 THEN NULL ELSE f(j)
        id(j) == k.keys[j]
        other(j) == k.keys[3 - j]
        n == DOMAIN k.refs
        own(i) == <<3, 1>>[i]
        a == CASE k.shape = "self" -> [i \in 1..2 |-> <<id(i), 10 + i, at(k.refs[i], id)>>]
               [] k.shape = "pair" -> [i \in 1..2 |-> <<id(i), id(2)>>]
               [] OTHER -> [i \in 1..2 |-> <<id(i), 10 + i>>]
        refs2 == [i \in n |-> <<own(i), at(k.refs[i], id), at(k.refs[i], LAMBDA j : 7)>>]
    IN CASE t = A -> a
         [] t = B /\ k.shape = "ref"   -> [i \in n |-> <<own(i), at(k.refs[i], id)>>]
         [] t = B /\ k.shape = "two"   -> [i \in n |-> <<own(i), at(k.refs[i], id), at(k.refs[i], other)>>]
         [] t = B /\ k.shape = "chain" -> [i \in 1..2 |-> <<id(i), 20 + i>>]
         [] t = B /\ k.shape = "pair"  -> [i \in n |-> <<own(i), at(k.refs[i], id), at(k.refs[i], LAMBDA j : id(2))>>]
         [] t = B /\ k.shape = "part"  -> [i \in 1..2 |-> <<id(i), 7>>]
         [] t = C /\ k.shape = "chain" -> [i \in n |-> <<own(i), at(k.refs[i], id)>>]
         [] t = C /\ k.shape = "part"  -> refs2
Old(k, t) ==      \* what the destination has
    LET row(n) == [i \in DOMAIN Shape(k.shape)[t].cols |-> IF i = 1 THEN n ELSE NULL]
    IN CASE k.max \in {"-", "none"} -> <<>>
         [] t = A -> <<row(-2), row(CHOOSE n \in {-1, 0, 5} : ToString(n) = k.max)>>
         [] k.shape = "part" -> <<>>
         [] k.shape = "chain" /\ t = B -> <<row(-2)>>
         [] OTHER -> <<row(4)>>

Is(k, t) == Shape(k.shape)[t]
Rule == [all |-> TRUE, percent |-> 100, amount |-> -1, in |-> <<>>, like |-> <<>>, sql |-> <<>>]
ScnOf(k) ==
    LET T == DOMAIN Shape(k.shape)
        per(f(_)) == [t \in T |-> f(t)]
    IN [id |-> 0, dialect |-> "none", omode |-> "det", strs |-> <<>>, zerof |-> <<>>, fl |-> <<>>,
        T |-> per(LAMBDA t : [schema |-> "s", chars |-> Chars(t), pk |-> Is(k, t).pk, cols |-> Is(k, t).cols, isint |-> Is(k, t).cols,
                              uniq |-> <<>>, auto |-> FALSE, tag |-> "", fks |-> Is(k, t).fks]),
        src |-> per(LAMBDA t : Rows(k, t)),
        P |-> [select |-> <<>>, passthrough |-> <<>>, ignore |-> <<>>, targets |-> per(LAMBDA t : Rule), constraints |-> << >>,
               infer |-> "none", incdep |-> FALSE, extra |-> <<>>, ignorefks |-> <<>>],
        plan |-> [ok |-> TRUE, err |-> "", passthrough |-> <<>>, queries |-> per(LAMBDA t : [outer |-> FALSE, joins |-> <<>>])]]
RunOf(k) ==
    LET T == DOMAIN Shape(k.shape)
        D == [t \in T |-> [chars |-> Chars(t), schema |-> "s", cols |-> Is(k, t).cols, types |-> <<>>,
                           null |-> [n \in DOMAIN Is(k, t).cols |-> Is(k, t).cols[n] \notin RangeOf(Is(k, t).pk)],
                           pk |-> Is(k, t).pk, uniq |-> <<>>, fks |-> Is(k, t).fks, computed |-> <<>>, defs |-> <<>>, auto |-> ""]]
        X == [t \in T |-> Old(k, t)]
    IN [create |-> FALSE, truncate |-> FALSE, kind |-> "db", merge |-> k.max # "-", conflict |-> "error", remap |-> <<>>, infer |-> "none",
        mult |-> [m |-> k.m, ignore |-> IF k.ign THEN <<A>> ELSE <<>>, extra |-> << >>, ignpk |-> << >>],
        compact |-> [pk |-> k.comp = "pk", auto |-> FALSE, cols |-> IF k.comp = "a" THEN (A :> <<Is(k, A).pk[1]>>) ELSE << >>, start |-> k.start],
        filters |-> << >>, doms |-> <<>>, cut |-> FALSE, same |-> 0, badconfig |-> FALSE, D0 |-> D, dst0 |-> X, planeq |-> TRUE,
        moves |-> FALSE, snap |-> FALSE, versions |-> <<>>,
        end |-> [ok |-> TRUE, err |-> "", D |-> D, dst |-> X, src |-> << >>, objs |-> TRUE, next |-> << >>]]

Init == /\ \E sh \in {"ref", "self", "two", "chain", "pair", "part"},
              ks \in {<<1, 2>>, <<9, 2>>, <<0, 5>>, <<-4, 3>>}, rf \in {<<1, 2>>, <<2, 1>>, <<0, 2>>, <<1, 1>>},
              cp \in {"no", "pk", "a"}, st \in {0, 1, 7}, m \in {1, 2, 3}, ig \in BOOLEAN, mx \in {"-", "none", "-1", "0", "5"} :
              /\ (cp = "no" => st = 1) /\ (ig => m > 1) /\ (sh = "pair" => cp # "pk")
              /\ (sh \in {"pair", "self"} => ~ig) /\ (sh \in {"pair", "part"} => mx \in {"-", "none"})
              /\ cp # "no" \/ m > 1 \/ mx # "-"
              /\ Deep \/ (m < 3 /\ st \in {1, 7} /\ rf # <<1, 1>> /\ mx # "none" /\ (sh = "self" => rf # <<1, 2>>))
              /\ c = [shape |-> sh, keys |-> ks, refs |-> rf, comp |-> cp, start |-> st, m |-> m, ign |-> ig, max |-> mx]
        /\ S = << >> /\ R = << >>
Next == S = << >> /\ S' = ScnOf(c) /\ R' = RunOf(c) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------- invariants *)
O == DetSample(S)
Ok == S # << >> /\ RunRefusal(S, R) = {}
M == Maps(S, R, O)
B0 == Base(S, R)
PM == PkMax(S, R, B0)
New(t) == Incoming(S, R, O, PM, M, t)
At2(t, key, col) == New(t)[key][ColIx(R.end.D[t].cols, col)]
(* copy k of row i refers to copy k of row j (or its only one) if and only if i refers to j *)
Links == Ok =>
    \A f \in SampFks(S, R) : \A a \in DOMAIN New(f.src) : \A b \in DOMAIN New(f.dst) :
        LET hit == \A k \in DOMAIN f.cols : At2(f.src, a, f.cols[k]) # NULL /\ At2(f.src, a, f.cols[k]) = At2(f.dst, b, f.dcols[k])
            right == FkMatch(S, f, a[1], b[1]) /\ (b[2] = a[2] \/ Copies(S, R, f.dst) = 1)
        IN hit = right
NoneLost == Ok => \A t \in Planned(S) : \A i \in O[t] : \A k \in DOMAIN S.T[t].cols :
              \A n \in 0..(Copies(S, R, t) - 1) : (S.src[t][i][k] = NULL) = (At2(t, <<i, n>>, S.T[t].cols[k]) = NULL)
Keys == Ok => \A t \in Planned(S) : \A a, b \in DOMAIN New(t) : a # b => ~PkClash(R.end.D[t], New(t)[a], New(t)[b])
Contiguous == Ok /\ c.m = 1 /\ c.max = "-" => \A t \in Planned(S) : CompCols(S, R, t) # {} =>
    LET pk == CHOOSE x \in CompCols(S, R, t) : TRUE
    IN /\ {At2(t, a, pk) : a \in DOMAIN New(t)} = c.start..(c.start + Cardinality(O[t]) - 1)
       /\ \A a, b \in DOMAIN New(t) : TupLess(S.strs, PkVal(S, t, a[1]), PkVal(S, t, b[1])) => At2(t, a, pk) < At2(t, b, pk)
Whole == Ok => ~FkDoomed(S, R, O) /\ ~Silent(S, R, O)
NoClash == Ok /\ R.merge /\ (c.keys[1] >= 0 \/ c.comp # "no") => ~ClashDue(S, R, O)

(* wrong designs, which the invariants must tell from the right one *)
WShift(v, m, k) == IF v = NULL THEN v ELSE v + m * k                                \* copies get into each other's way
WAddOff(v, offs) == IF v = NULL \/ offs = {0} THEN v ELSE v + (CHOOSE o \in offs : TRUE) - 1   \* the largest key, not one more
WMultClose(s, r, m) == m                                                            \* references are not multiplied
WNewKeys(s, r, o) == [t \in {u \in Planned(s) : CompCols(s, r, u) # {}} |-> [i \in o[t] |-> r.compact.start + i - 1]]   \* as they are read
WCompRefs(s, r, t, x) == {}                                                         \* references are not renumbered

Emit == S = << >> => PrintT("CASE " \o ToJson(c))
=============================================================================
