----------------------------- MODULE Transform ------------------------------
(***************************************************************************)
(* From sampled rows to the rows written: compaction, filters,             *)
(* multiplication, merge offsets, remapping.  R is one run of a scenario,  *)
(* O the sample (table -> set of row indices).                             *)
(***************************************************************************)
EXTENDS Sampling, TLC, SequencesExt

At(f, x, default) == IF x \in DOMAIN f THEN f[x] ELSE default
SetAt(f, x) == IF x \in DOMAIN f THEN RangeOf(f[x]) ELSE {}

(* ------------------------------------------------------------- remapping *)
StartsWith(s, a) == Len(a) <= Len(s) /\ SubSeq(s, 1, Len(a)) = a
RECURSIVE Subst(_, _, _)
Subst(s, a, b) ==
    IF s = <<>> THEN <<>>
    ELSE IF a # <<>> /\ StartsWith(s, a) THEN b \o Subst(SubSeq(s, Len(a) + 1, Len(s)), a, b)
    ELSE <<Head(s)>> \o Subst(Tail(s), a, b)
DotAt(s) == CHOOSE i \in DOMAIN s : s[i] = 46 /\ \A j \in 1..(i-1) : s[j] # 46
WordChar(c) == (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 95
RemapOne(s, r) ==
    CASE r.kind = "all" -> Subst(s, r.a, r.b)
      [] r.kind = "prefix" -> IF StartsWith(s, r.a) THEN r.b \o SubSeq(s, Len(r.a) + 1, Len(s)) ELSE s
      [] r.kind = "suffix" -> LET k == Len(s) - Len(r.a)
                              IN IF k >= 0 /\ SubSeq(s, k + 1, Len(s)) = r.a THEN SubSeq(s, 1, k) \o r.b ELSE s
      [] r.kind = "schemasuffix" -> LET d == DotAt(s)
                                    IN IF \A i \in 1..(d-1) : WordChar(s[i])
                                       THEN SubSeq(s, 1, d - 1) \o r.b \o SubSeq(s, d, Len(s)) ELSE s
RECURSIVE RemapFrom(_, _, _)
RemapFrom(s, rules, k) == IF k > Len(rules) THEN s ELSE RemapFrom(RemapOne(s, rules[k]), rules, k + 1)
DestChars(S, R, t) == IF R.kind = "dir" THEN S.T[t].chars ELSE RemapFrom(S.T[t].chars, R.remap, 1)
RemapClash(S, R) == \E t, u \in Planned(S) : t # u /\ DestChars(S, R, t) = DestChars(S, R, u)
(* the table of the destination description D with these characters *)
DestIn(D, ch) == {d \in DOMAIN D : D[d].chars = ch}
DestOf(S, R, D, t) == CHOOSE d \in DOMAIN D : D[d].chars = DestChars(S, R, t)
HasDest(S, R, D, t) == DestIn(D, DestChars(S, R, t)) # {}

(* ------------------------------------------------------------ compaction *)
(* the foreign keys the sampler knows: those declared or inferred at the   *)
(* source among (the columns of) the planned tables                        *)
SampFks(S, R) == DeclaredAll(S, Planned(S)) \cup Inferred(S, Planned(S), R.infer)

SingleIntPk(S, t) == Len(S.T[t].pk) = 1 /\ S.T[t].pk[1] \in RangeOf(S.T[t].isint)
CompCols(S, R, t) ==
    IF t \in Pass(S) THEN {}
    ELSE SetAt(R.compact.cols, t)
         \cup (IF SingleIntPk(S, t) /\ (R.compact.pk \/ (R.compact.auto /\ S.T[t].auto)) THEN {S.T[t].pk[1]} ELSE {})
Compacting(S, R) == \E t \in Planned(S) : CompCols(S, R, t) # {}
CompactRefused(S, R) ==
    \E f \in SampFks(S, R) : \E k \in DOMAIN f.cols : f.cols[k] \in CompCols(S, R, f.src)

RECURSIVE TupLess(_, _, _)
TupLess(strs, a, b) ==
    IF a = <<>> THEN FALSE
    ELSE IF Head(a) # Head(b) THEN Less(strs, Head(a), Head(b)) ELSE TupLess(strs, Tail(a), Tail(b))
PkVal(S, t, i) == [k \in DOMAIN S.T[t].pk |-> Cell(S, t, i, S.T[t].pk[k])]
(* the new key of every sampled row of every compacted table *)
NewKeys(S, R, O) ==
    TLCEval([t \in {u \in Planned(S) : CompCols(S, R, u) # {}} |->
        LET pk == TLCEval([i \in O[t] |-> PkVal(S, t, i)])
            q == SortSeq(SetToSeq(O[t]), LAMBDA a, b : TupLess(S.strs, pk[a], pk[b]))
        IN TLCEval([i \in O[t] |-> R.compact.start + (CHOOSE k \in DOMAIN q : q[k] = i) - 1])])

(* Column c of t refers to a compacted column, directly or through columns     *)
(* that are foreign keys themselves.                                          *)
ColFks(S, R, t, c) == {<<f, k>> \in UNION {{<<g, q>> : q \in {p \in DOMAIN g.cols : g.cols[p] = c}}
                                           : g \in {h \in SampFks(S, R) : h.src = t /\ h.dst \in Planned(S)}} : TRUE}
RECURSIVE RefersOn(_, _, _, _, _)
RefersOn(S, R, t, c, seen) ==
    \E fk \in ColFks(S, R, t, c) :
        LET d == fk[1].dst
            e == fk[1].dcols[fk[2]]
        IN e \in CompCols(S, R, d) \/ (<<d, e>> \notin seen /\ RefersOn(S, R, d, e, seen \cup {<<d, e>>}))
CompRefs(S, R, t, c) ==
    LET A == ColFks(S, R, t, c)
        direct == {fk \in A : fk[1].dcols[fk[2]] \in CompCols(S, R, fk[1].dst)}
    IN IF direct # {} THEN direct
       ELSE {fk \in A : RefersOn(S, R, fk[1].dst, fk[1].dcols[fk[2]], {<<t, c>>, <<fk[1].dst, fk[1].dcols[fk[2]]>>})}
RECURSIVE CompCell(_, _, _, _, _, _, _, _)
CompCell(S, R, O, K, t, i, c, depth) ==
    IF c \in CompCols(S, R, t) THEN K[t][i]
    ELSE IF Cell(S, t, i, c) = NULL THEN NULL
    ELSE LET refs == CompRefs(S, R, t, c)
             direct == \A fk \in refs : fk[1].dcols[fk[2]] \in CompCols(S, R, fk[1].dst)
             val(fk) ==
                 IF FkNull(S, fk[1], i) THEN (IF direct \/ Cardinality(refs) > 1 THEN WILD ELSE Cell(S, t, i, c))
                 ELSE LET J == {j \in O[fk[1].dst] : FkMatch(S, fk[1], i, j)}
                      IN IF J = {} \/ depth = 0 THEN WILD
                         ELSE CompCell(S, R, O, K, fk[1].dst, CHOOSE j \in J : TRUE, fk[1].dcols[fk[2]], depth - 1)
             V == {val(fk) : fk \in refs}
         IN IF refs = {} THEN Cell(S, t, i, c) ELSE IF Cardinality(V) = 1 THEN CHOOSE v \in V : TRUE ELSE WILD
CompRow(S, R, O, K, t, i) ==
    IF ~Compacting(S, R) THEN S.src[t][i]
    ELSE [k \in DOMAIN S.T[t].cols |-> CompCell(S, R, O, K, t, i, S.T[t].cols[k], 6)]

(* --------------------------------------------------------------- filters *)
Pos(cols, c) == IF \E i \in DOMAIN cols : cols[i] = c THEN ColIx(cols, c) ELSE 0
EmptyText(S) == CHOOSE v \in {TEXT + k : k \in DOMAIN S.strs} : S.strs[v - TEXT] = <<>>
Zero(S, v) ==
    IF v = NULL \/ v = WILD THEN v
    ELSE IF v <= DOM0 THEN WILD
    ELSE IF IsText(v) THEN EmptyText(S)
    ELSE IF IsInt(v) THEN 0
    ELSE LET Z == {z \in RangeOf(S.zerof) : z.v = v} IN IF Z = {} THEN WILD ELSE (CHOOSE z \in Z : TRUE).z
UpperCh(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
PluginVals(S, f, vs) ==                      \* the plugin classes of the harness
    CASE f.vals[1] = 1 -> [k \in DOMAIN vs |-> vs[Len(vs) + 1 - k]]
      [] f.vals[1] = 3 -> [k \in DOMAIN vs |-> IF vs[k] <= DOM0 THEN WILD ELSE IF ~IsInt(vs[k]) THEN vs[k] ELSE vs[k] + f.vals[2]]
CondHolds(S, c, v) ==
    CASE c.op = "is"     -> v = NULL /\ c.vals[1] = NULL
      [] c.op = "is not" -> ~(v = NULL /\ c.vals[1] = NULL)
      [] c.op = "in"     -> v \in RangeOf(c.vals)
      [] c.op = "not in" -> v \notin RangeOf(c.vals)
      [] c.op = "="      -> v = c.vals[1]
      [] c.op = "!="     -> v # c.vals[1]
      [] c.op = "<"      -> Less(S.strs, v, c.vals[1])
      [] c.op = ">"      -> Less(S.strs, c.vals[1], v)
      [] c.op = "<="     -> ~Less(S.strs, c.vals[1], v)
      [] c.op = ">="     -> ~Less(S.strs, v, c.vals[1])
      [] c.op = "matches" -> Glob(c.pat, S.strs[v - TEXT])

(* one filter applied to a row; P = [cols, vals] *)
RECURSIVE ApplyFilter(_, _, _)
ApplyFilter(S, f, P) ==
    LET ix(c) == Pos(P.cols, c)
        on(k) == \E q \in DOMAIN f.cols : f.cols[q] = P.cols[k]
        at(k) == CHOOSE q \in DOMAIN f.cols : f.cols[q] = P.cols[k]
    IN CASE f.op = "omit" ->
              LET keep == {k \in DOMAIN P.cols : ~on(k)}
                  nth(n) == CHOOSE k \in keep : Cardinality({j \in keep : j <= k}) = n
              IN [cols |-> [n \in 1..Cardinality(keep) |-> P.cols[nth(n)]],
                  vals |-> [n \in 1..Cardinality(keep) |-> P.vals[nth(n)]]]
         [] f.op = "zero" -> [P EXCEPT !.vals = [k \in DOMAIN P.vals |-> IF on(k) THEN Zero(S, P.vals[k]) ELSE P.vals[k]]]
         [] f.op = "null" -> [P EXCEPT !.vals = [k \in DOMAIN P.vals |-> IF on(k) THEN NULL ELSE P.vals[k]]]
         [] f.op = "constant" -> [P EXCEPT !.vals = [k \in DOMAIN P.vals |-> IF on(k) THEN f.vals[at(k)] ELSE P.vals[k]]]
         [] f.op = "plugin" ->
              LET out == PluginVals(S, f, [q \in DOMAIN f.cols |-> P.vals[ix(f.cols[q])]])
              IN [P EXCEPT !.vals = [k \in DOMAIN P.vals |-> IF on(k) THEN out[at(k)] ELSE P.vals[k]]]
         [] f.op = "multiplex" ->
              LET v == P.vals[ix(f.col)]
                  hit == {n \in DOMAIN f.conds : CondHolds(S, f.conds[n], v)}
              IN IF v = WILD \/ v <= DOM0 THEN [P EXCEPT !.vals = [k \in DOMAIN P.vals |-> WILD]]
                 ELSE IF hit = {} THEN P ELSE ApplyFilter(S, f.conds[MinOf(hit)].apply, P)
         [] OTHER ->    \* a value drawn from a domain
              [P EXCEPT !.vals = [k \in DOMAIN P.vals |-> IF on(k) THEN DOM0 - f.dom ELSE P.vals[k]]]
RECURSIVE ApplyFilters(_, _, _, _)
ApplyFilters(S, fs, k, P) == IF k > Len(fs) THEN P ELSE ApplyFilters(S, fs, k + 1, ApplyFilter(S, fs[k], P))

InDomain(S, R, k, v) ==
    LET d == R.doms[k]
        s == S.strs[v - TEXT]
        hexd(c) == (c >= 48 /\ c <= 57) \/ (c >= 97 /\ c <= 102)
    IN CASE d.kind = "int"   -> IsInt(v) /\ d.lo <= v /\ v <= d.hi
         [] d.kind = "str"   -> IsText(v) /\ Len(s) = d.lo /\ \A i \in DOMAIN s : s[i] \in RangeOf(d.chars)
         [] d.kind = "uuid"  -> IsText(v) /\ Len(s) = 36 /\ \A i \in DOMAIN s : IF i \in {9, 14, 19, 24} THEN s[i] = 45 ELSE hexd(s[i])
         [] d.kind = "float" -> \E x \in RangeOf(S.fl) : x.v = v /\ d.lo <= x.m /\ x.m <= d.hi
         [] d.kind = "has"   -> IsText(v) /\ s # <<>> /\ \E i \in DOMAIN s : s[i] \in RangeOf(d.chars)
         [] d.kind = "len"   -> IsText(v) /\ Len(s) = d.lo /\ \A i \in DOMAIN s : s[i] \in RangeOf(d.chars)
         [] d.kind = "other" -> v \notin RangeOf(d.chars)     \* anything but these codes

(* -------------------------------------------------------- multiplication *)
MultTables(S, R) == (Planned(S) \ Pass(S)) \ RangeOf(R.mult.ignore)
MultBase(S, R) == [t \in Planned(S) |->
    IF t \in MultTables(S, R)
    THEN SetAt(R.mult.extra, t) \cup (RangeOf(S.T[t].pk) \ SetAt(R.mult.ignpk, t)) ELSE {}]
RECURSIVE MultClose(_, _, _)
MultClose(S, R, M) ==
    LET N == [t \in Planned(S) |-> M[t] \cup
                UNION {{f.cols[k] : k \in {q \in DOMAIN f.cols : f.dcols[q] \in M[f.dst]}}
                       : f \in {g \in SampFks(S, R) : g.src = t /\ g.dst \in Planned(S)}}]
    IN IF N = M THEN M ELSE MultClose(S, R, N)
MultCols(S, R) == IF R.mult.m <= 1 THEN [t \in Planned(S) |-> {}] ELSE MultClose(S, R, MultBase(S, R))
MultRefused(S, R) ==
    R.mult.m > 1 /\ LET M == MultCols(S, R)
                    IN \/ \E t \in Planned(S) : \/ t \notin MultTables(S, R) /\ M[t] # {}
                                                \/ \E c \in M[t] : c \notin RangeOf(S.T[t].isint)
                       \/ \E f \in SampFks(S, R) : f.dst \in Planned(S) /\            \* (it would refer to nothing)
                             \E k \in DOMAIN f.cols : f.cols[k] \in M[f.src] /\ f.dcols[k] \notin M[f.dst]
Copies(S, R, t) == IF R.mult.m > 1 /\ t \in MultTables(S, R) THEN R.mult.m ELSE 1
Shift(v, m, k) == IF v = NULL \/ v = WILD THEN v ELSE IF v <= DOM0 \/ ~IsInt(v) THEN WILD ELSE v * m + k

(* --------------------------------------------------------- merge offsets *)
(* pkmax[t]: largest key in the destination table of t, NULL if there is none *)
(* A column is shifted like the column it refers to (that may not be shifted), or as the table's own key. *)
RECURSIVE OffsOf(_, _, _, _, _, _)
OffsOf(S, R, pkmax, t, c, seen) ==
    LET A == {fk \in ColFks(S, R, t, c) : <<fk[1].dst, fk[1].dcols[fk[2]]>> \notin seen}
        far(fk) == LET d == <<fk[1].dst, fk[1].dcols[fk[2]]>>
                   IN IF d[1] \in Pass(S) THEN {} ELSE OffsOf(S, R, pkmax, d[1], d[2], seen \cup {d})
    IN IF A # {} THEN UNION {far(fk) : fk \in A}
       ELSE IF SingleIntPk(S, t) /\ S.T[t].pk[1] = c THEN {IF pkmax[t] = NULL THEN 0 ELSE pkmax[t] + 1} ELSE {}
MergeOffs(S, R, pkmax, t, c) ==
    IF ~R.merge \/ t \in Pass(S) THEN {0}
    ELSE LET o == OffsOf(S, R, pkmax, t, c, {<<t, c>>}) IN IF o = {} THEN {0} ELSE o
AddOff(v, offs) ==
    IF v = NULL \/ v = WILD \/ offs = {0} THEN v
    ELSE IF Cardinality(offs) > 1 \/ v <= DOM0 \/ ~IsInt(v) THEN WILD ELSE v + (CHOOSE o \in offs : TRUE)

(* --------------------------------------------------- the rows to be written *)
(* The columns written for t and, for every sampled row and copy, the values. *)
OutCols(S, R, t) ==
    ApplyFilters(S, At(R.filters, t, <<>>), 1, [cols |-> S.T[t].cols, vals |-> [k \in DOMAIN S.T[t].cols |-> WILD]]).cols
OutRow(S, R, O, pkmax, M, t, i, copy) ==
    LET P == ApplyFilters(S, At(R.filters, t, <<>>), 1, [cols |-> S.T[t].cols, vals |-> CompRow(S, R, O, M.keys, t, i)])
        m == Copies(S, R, t)
    IN [k \in DOMAIN P.cols |->
          LET c == P.cols[k]
              v == IF m > 1 /\ c \in M.mult[t] THEN Shift(P.vals[k], m, copy) ELSE P.vals[k]
          IN AddOff(v, MergeOffs(S, R, pkmax, t, c))]

(* what is computed once per run: multiplied columns and compacted keys *)
Maps(S, R, O) == [mult |-> MultCols(S, R), keys |-> NewKeys(S, R, O)]

FilterCols(f) == IF f.op = "multiplex" THEN {f.col} \cup UNION {RangeOf(c.apply.cols) : c \in RangeOf(f.conds)} ELSE RangeOf(f.cols)
RECURSIVE FiltersRefused(_, _, _)
FiltersRefused(fs, k, cols) ==
    IF k > Len(fs) THEN FALSE
    ELSE LET f == fs[k]
             dup(x) == \E a, b \in DOMAIN x : a # b /\ x[a] = x[b]
             bad(g) == g.op # "omit" /\ (g.cols = <<>> \/ dup(g.cols) \/ ~(RangeOf(g.cols) \subseteq cols)
                                         \/ (g.op = "constant" /\ Len(g.vals) # Len(g.cols)))
         IN \/ (f.op # "multiplex" /\ bad(f))
            \/ (f.op = "multiplex" /\ (f.col \notin cols
                                       \/ \E c \in RangeOf(f.conds) : bad(c.apply) \/ (c.apply.op = "omit" /\ RangeOf(c.apply.cols) \cap cols # {})))
            \/ FiltersRefused(fs, k + 1, IF f.op = "omit" THEN cols \ RangeOf(f.cols) ELSE cols)
FilterRefused(S, R) == \E t \in DOMAIN R.filters \cap Planned(S) : FiltersRefused(R.filters[t], 1, RangeOf(S.T[t].cols))
=============================================================================
