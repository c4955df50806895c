------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Values, SQL truth values and text matching.                             *)
(* Every column value is an integer code: integers stand for themselves,   *)
(* NULL is a reserved code, texts are codes TEXT+1, TEXT+2, ... whose      *)
(* characters are listed in the scenario, all other values are codes above *)
(* ELSEV.  Patterns (LIKE, select globs) are sequences of character codes. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NULL  == -1000000000
WILD  == -1100000000          \* cell of an expected row: any value
DOM0  == -1200000000          \* DOM0 - k : any value of domain k of the scenario
TEXT  == 1000000
ELSEV == 2000000

IsText(v) == v > TEXT /\ v <= ELSEV
IsInt(v)  == v <= TEXT /\ v >= -TEXT

RangeOf(s) == {s[i] : i \in DOMAIN s}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
Least(a, b) == IF a < b THEN a ELSE b

(* matching with "many" = any sequence and "one" = any single character *)
RECURSIVE Match(_, _, _, _)
Match(p, s, many, one) ==
    IF p = <<>> THEN s = <<>>
    ELSE IF Head(p) = many
         THEN Match(Tail(p), s, many, one) \/ (s # <<>> /\ Match(p, Tail(s), many, one))
         ELSE s # <<>> /\ (Head(p) = one \/ Head(p) = Head(s))
              /\ Match(Tail(p), Tail(s), many, one)

(* glob patterns: '*', '?', and sets '[abc]', '[!abc]', '[a-c]'; a '[' that nothing closes is itself *)
Close(p) == LET J == {j \in DOMAIN p : j >= (IF Len(p) > 1 /\ p[2] = 33 THEN 4 ELSE 3) /\ p[j] = 93}
            IN IF J = {} THEN 0 ELSE MinOf(J)
InSet(b, ch) == \/ \E i \in DOMAIN b : b[i] = ch /\ (ch = 45 => i \in {1, Len(b)})
                \/ \E i \in 2..(Len(b) - 1) : b[i] = 45 /\ b[i - 1] <= ch /\ ch <= b[i + 1]
RECURSIVE Glob(_, _)
Glob(p, s) ==
    IF p = <<>> THEN s = <<>>
    ELSE IF Head(p) = 42 THEN Glob(Tail(p), s) \/ (s # <<>> /\ Glob(p, Tail(s)))
    ELSE IF s = <<>> THEN FALSE
    ELSE IF Head(p) = 91 /\ Close(p) # 0
         THEN LET c == Close(p)  neg == p[2] = 33
              IN InSet(SubSeq(p, IF neg THEN 3 ELSE 2, c - 1), Head(s)) # neg /\ Glob(SubSeq(p, c + 1, Len(p)), Tail(s))
    ELSE (Head(p) = 63 \/ Head(p) = Head(s)) /\ Glob(Tail(p), Tail(s))
Like(p, s) == Match(p, s, 37, 95)      \* '%' and '_'

RECURSIVE LexLess(_, _)
LexLess(a, b) ==
    IF b = <<>> THEN FALSE
    ELSE IF a = <<>> THEN TRUE
    ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
    ELSE LexLess(Tail(a), Tail(b))

(* SQL truth values *)
B3(b)   == IF b THEN "T" ELSE "F"
Not3(a) == IF a = "T" THEN "F" ELSE IF a = "F" THEN "T" ELSE "U"
And3(A) == IF "F" \in A THEN "F" ELSE IF "U" \in A THEN "U" ELSE "T"   \* A: set of truth values
Or3(A)  == IF "T" \in A THEN "T" ELSE IF "U" \in A THEN "U" ELSE "F"

(* comparison of two codes; strs lists the characters of the texts *)
Less(strs, v, w) == IF IsText(v) /\ IsText(w) THEN LexLess(strs[v - TEXT], strs[w - TEXT]) ELSE v < w

Cmp3(strs, op, v, w) ==
    IF v = NULL \/ w = NULL THEN "U"
    ELSE CASE op = "="   -> B3(v = w)
           [] op \in {"<>", "!="} -> B3(v # w)
           [] op = "<"   -> B3(Less(strs, v, w))
           [] op = ">"   -> B3(Less(strs, w, v))
           [] op = "like" -> B3(Like(strs[w - TEXT], strs[v - TEXT]))
           [] op = "not like" -> B3(~Like(strs[w - TEXT], strs[v - TEXT]))
=============================================================================
