------------------------------ MODULE OrderMC --------------------------------
(* Every abstract schema up to renaming of its tables: the machine is run on *)
(* it, its invariants are checked, and it is printed to be realised as a     *)
(* database that the code plans.                                             *)
EXTENDS Order, Json
CONSTANTS N, Roles, Many, Loops, Deps, MaxEdges

Off(n) == {p \in (1..n) \X (1..n) : Loops \/ p[1] # p[2]}
PairSeq(n) == SetToSeq(Off(n))
RoleNo == [T |-> 1, t |-> 2, n |-> 3, p |-> 4, i |-> 5, u |-> 6]
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
PermsN == [n \in 1..N |-> Perms(n)]
PairsN == [n \in 1..N |-> PairSeq(n)]
EdgeCode(e, n, p) == FoldLeft(LAMBDA a, q : a * (Many + 1) + e[<<p[q[1]], p[q[2]]>>], 0, PairsN[n])
(* of all schemas that differ only in the names of the tables, one *)
Sorted(r, n) == \A i \in 1..(n - 1) : RoleNo[r[i]] <= RoleNo[r[i + 1]]
Canonical(e, r, n) ==
    LET c == EdgeCode(e, n, [i \in 1..n |-> i])
    IN \A p \in PermsN[n] : (\A i \in 1..n : r[p[i]] = r[i]) => EdgeCode(e, n, p) >= c

EdgeSum(e, n) == FoldLeft(LAMBDA a, q : a + e[q], 0, PairsN[n])
Init == /\ layers = <<>> /\ fwd = TRUE /\ over = FALSE
        /\ \E r \in [1..N -> Roles] :
              /\ Sorted(r, N) /\ r[1] \in {"T", "t"}
              /\ \E e \in [Off(N) -> 0..Many], d \in Deps :
                    /\ EdgeSum(e, N) <= MaxEdges
                    /\ Canonical(e, r, N)
                    /\ d \/ (\E p \in Off(N) : e[p] > 0 /\ (r[p[2]] = "u" \/ r[p[2]] = "i"))     \* else it makes no difference
                    /\ g = [n |-> N, role |-> r, incdep |-> d,
                            e |-> [p \in (1..N) \X (1..N) |-> IF p \in Off(N) THEN e[p] ELSE 0]]
Spec == Init /\ [][Next]_vars
Emit == over => PrintT("CASE " \o ToJson([n |-> g.n, role |-> g.role, incdep |-> g.incdep,
                                           e |-> [q \in DOMAIN SetToSeq(Pairs(g)) |-> <<SetToSeq(Pairs(g))[q], g.e[SetToSeq(Pairs(g))[q]]>>]]))
=============================================================================
