-------------------------------- MODULE RunMC --------------------------------
(* Every small destination; each is printed to be realised for the code.     *)
EXTENDS Run, Json
CONSTANTS N, Had

Edges0 == {p \in (1..N) \X (1..N) : p[1] > p[2]}
Init == /\ \E e \in [Edges0 -> BOOLEAN], st \in [1..N -> {"keep", "new", "other", "none"}], tr \in BOOLEAN, cr \in BOOLEAN,
              cf \in {"error", "skip", "replace"} :
              /\ \E i \in 1..N : st[i] \in {"keep", "new"}
              /\ \A p \in Edges0 : e[p] => st[p[1]] # "none" /\ st[p[2]] # "none"       \* (tables of no interest)
              /\ cr => \E i \in 1..N : st[i] = "new"
              /\ tr => cf = "error"
              /\ \E had \in [1..N -> Had] :
                    /\ \A i \in 1..N : st[i] \in {"new", "none"} => had[i] = "no"
                    /\ \A i \in 1..N : st[i] = "other" => had[i] # "own"
                    /\ cf # "error" => \E i \in 1..N : st[i] = "keep" /\ had[i] = "same"
                    /\ c = [n |-> N, st |-> st, truncate |-> tr, create |-> cr, conflict |-> cf, had |-> had,
                            e |-> [p \in (1..N) \X (1..N) |-> p \in Edges0 /\ e[p]]]
        /\ S = Start(c).s /\ R = Start(c).r /\ X = Start(c).r.dst0
        /\ phase = "check" /\ todo = {} /\ at = <<>> /\ again = FALSE
Spec == Init /\ [][Next]_vars
Emit == (phase = "check" /\ ~again) => PrintT("CASE " \o ToJson([n |-> c.n, st |-> c.st, truncate |-> c.truncate, create |-> c.create,
            conflict |-> c.conflict, had |-> c.had, e |-> SetToSeq({p \in Edges0 : c.e[p]})]))
=============================================================================
