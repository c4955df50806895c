----------------------------- MODULE PlanLangMC -----------------------------
(***************************************************************************)
(* Builds queries of the plan language step by step over a small database  *)
(* and checks on each that its simplification (SimpS) means the same.      *)
(* Every query reached is printed, to be replayed into the code.           *)
(***************************************************************************)
EXTENDS PlanLang, Json

CONSTANTS MaxDepth, MaxParts, Mode       \* Mode: "cond" or "union"
VARIABLES st, depth
vars == <<st, depth>>

DB == [cols |-> [a |-> <<"id", "v">>, b |-> <<"id", "r">>],
       src |-> [a |-> <<<<1, 0>>, <<2, 1>>, <<3, NULL>>>>, b |-> <<<<1, 1>>, <<2, 3>>, <<3, NULL>>, <<4, 1>>>>],
       strs |-> <<>>]
XS == [a |-> <<<<1, 0>>, <<3, NULL>>>>, b |-> <<<<2, 3>>, <<3, NULL>>>>]

Ref(t, s) == [t |-> t, sampled |-> s]
Sel(w) == [k |-> "select", from |-> Ref("a", FALSE), cols |-> <<>>, where |-> w, limit |-> -1, joins |-> <<>>, outer |-> FALSE]
Op(o, v) == [k |-> "op", op |-> o, col |-> "v", val |-> v]
In(neg, vals) == [k |-> "in", cols |-> <<"v">>, neg |-> neg, vals |-> vals, sub |-> <<>>]
Rnd(n) == [k |-> "random", n |-> n]
Sub(s) == [k |-> "in", cols |-> <<"id">>, neg |-> FALSE, vals |-> <<>>, sub |-> <<s>>]
SelB(w) == [Sel(w) EXCEPT !.from = Ref("b", TRUE), !.cols = <<"r">>]
Atoms == {[k |-> "true"], [k |-> "false"], Op("=", 1), Op("<", 1), In(TRUE, <<<<1>>>>), In(FALSE, <<>>), Rnd(0), Rnd(1), Rnd(2), Rnd(3),
          Sub(SelB(<<>>)), Sub(SelB(<<[k |-> "false"]>>))}
Few == {[k |-> "true"], [k |-> "false"], Op("<", 1), Rnd(1)}
Lists(c) == {<<c>>} \cup {<<c, x>> : x \in Atoms} \cup {<<x, c>> : x \in Atoms}
             \cup {<<x, c, y>> : x \in Few, y \in Few}
Start == Atoms \cup {[k |-> j, args |-> <<>>] : j \in {"and", "or"}}

Join(s) == [right |-> Ref("b", s), lcols |-> <<"id">>, rcols |-> <<"r">>]
Wheres == {<<>>, <<TrueC>>, <<FalseC>>, <<Op("=", 1)>>, <<Op("<", 1)>>, <<Rnd(1)>>, <<Rnd(0)>>,
           <<[k |-> "or", args |-> <<Op("<", 1), Rnd(2)>>]>>, <<[k |-> "and", args |-> <<FalseC, Op("<", 1)>>]>>}
Shapes == {[Sel(<<>>) EXCEPT !.joins = j.j, !.outer = j.o, !.cols = c, !.limit = l] :
             j \in {[j |-> <<>>, o |-> FALSE], [j |-> <<Join(TRUE)>>, o |-> FALSE], [j |-> <<Join(TRUE), Join(FALSE)>>, o |-> TRUE],
                    [j |-> <<Join(TRUE), Join(FALSE)>>, o |-> FALSE]},
             c \in {<<>>, <<"v", "id">>, <<"id", "v">>}, l \in {-1, 0, 2}}
Plain(s) == s.joins = <<>> /\ s.limit < 0
Selects == {s \in {[s EXCEPT !.where = w] : s \in Shapes, w \in Wheres} : s.cols # <<"id", "v">> \/ Plain(s)}

Fits(s, first) == s.cols = first.cols \/ (Plain(s) /\ Plain(first))      \* (unions of different columns, too)

Init == /\ depth = 0
        /\ IF Mode = "cond" THEN st \in {Sel(<<c>>) : c \in Start}
           ELSE st \in {[k |-> "union", parts |-> <<s>>] : s \in Selects}
Wrap == /\ Mode = "cond" /\ depth < MaxDepth
        /\ \E j \in {"and", "or"} : \E L \in Lists(st.where[1]) : st' = Sel(<<[k |-> j, args |-> L]>>)
        /\ depth' = depth + 1
Add == /\ Mode = "union" /\ Len(st.parts) < MaxParts
       /\ \E s \in Selects : Fits(s, st.parts[1]) /\ st' = [st EXCEPT !.parts = Append(@, s)]
       /\ depth' = depth + 1
Next == Wrap \/ Add
Spec == Init /\ [][Next]_vars

Sound == SameMeaning(DB, XS, st, SimpS(st))
Emit == PrintT("CASE " \o ToJson(st))
=============================================================================
