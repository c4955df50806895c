------------------------------- MODULE Chance -------------------------------
(***************************************************************************)
(* What "at random" means for a target.  A record is the selection a       *)
(* target made of its matching rows: sel[i] = 1 iff the i-th matching row, *)
(* in the order of the key, was selected, and once more for a second run.  *)
(* A percentage keeps each row independently with that probability; an     *)
(* amount keeps exactly that many rows (or all there are), each set of     *)
(* that size equally likely.  Events that a sampler as described shows     *)
(* with a probability below about 1e-11 are excluded: how many rows, how   *)
(* many in the first half, how many at even places, how many neighbours,   *)
(* how many in both runs.  (7 standard deviations, plus a few rows as the  *)
(* numbers are small.)                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Batch == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc
vars == <<sc>>
S == Batch[sc]
N == Len(S.sel)

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Root(_, _, _)
Root(v, lo, hi) == IF hi - lo <= 1 THEN lo            \* lo^2 <= v < hi^2
                   ELSE LET m == (lo + hi) \div 2 IN IF m * m <= v THEN Root(v, m, hi) ELSE Root(v, lo, m)
Isqrt(v) == Root(v, 0, 46000)

Where(P(_)) == {i \in 1..N : S.sel[i] = 1 /\ P(i)}
Count == Cardinality(Where(LAMBDA i : TRUE))
(* |a/100 - b/100| is unlikely for something of variance v/10000 *)
Off(a, b, v) == Abs(a - b) > 7 * (Isqrt(v) + 1) + 600

(* S.bp: probability in 1/10000, for a percentage; -1 for an amount *)
Prob == IF S.bp >= 0 THEN S.bp ELSE (10000 * Count) \div N
Size == IF S.bp >= 0
        THEN IF S.bp = 0 THEN Count # 0 ELSE IF S.bp >= 10000 THEN Count # N
             ELSE Off(100 * Count, (N * S.bp) \div 100, ((N * S.bp) \div 100) * ((10000 - S.bp) \div 100))
        ELSE Count # (IF S.amount < N THEN S.amount ELSE N)
Open == N > 0 /\ Prob > 0 /\ Prob < 10000
Half == Off(200 * Cardinality(Where(LAMBDA i : 2 * i <= N)), 100 * Count, 10000 * Count)
Even == Off(200 * Cardinality(Where(LAMBDA i : i % 2 = 0)), 100 * Count, 10000 * Count)
Squared == (((N * Prob) \div 100) * Prob) \div 10000        \* 100 * N * p^2
Neighbours == Off(100 * Cardinality(Where(LAMBDA i : i < N /\ S.sel[i + 1] = 1)), Squared, 300 * Squared)
Again == Off(100 * Cardinality(Where(LAMBDA i : S.again[i] = 1)), Squared, 100 * Squared)

Bad == IF ~S.ok THEN {"chance.failed"}
       ELSE (IF S.more > 0 THEN {"chance.not-matching"} ELSE {})
            \cup (IF Size THEN {"chance.number"} ELSE {})
            \cup (IF Open /\ (Half \/ Even \/ Neighbours) THEN {"chance.places"} ELSE {})
            \cup (IF Open /\ Again THEN {"chance.repeated"} ELSE {})

Init == sc = 1
Next == /\ sc <= Len(Batch)
        /\ PrintT("VERDICT " \o ToJson([id |-> S.id, bad |-> Bad]))
        /\ sc' = sc + 1
Spec == Init /\ [][Next]_vars
=============================================================================
