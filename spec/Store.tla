------------------------------- MODULE Store -------------------------------
(* C11. Aggregation states are trees statistic -> variable -> <<sum, weight>>. *)
(* They may be saved as a tree, or as a flat table of named columns (in        *)
(* memory or in a file), loaded again later, and added to other states.        *)
(* Names are sequences of characters; Sep separates the parts of a column name.*)
EXTENDS VLib

CONSTANTS Sep, NReg, Stats, Vars, MaxSaves
VARIABLES h0, h, live, saves, hist
vars == <<h0, h, live, saves, hist>>

Leaves == Stats \X Vars
SumCol == <<"sum_weighted_statistics">>
WtCol == <<"sum_weights">>

\* Column names of the flat form, and how they are taken apart again.
ColName(l, kind) == l[1] \o <<Sep>> \o l[2] \o <<Sep>> \o kind
SepsIn(p) == {i \in DOMAIN p : p[i] = Sep}
\* split at the last separator, then at every other one
RECURSIVE SplitAll(_)
SplitAll(p) ==
  LET S == SepsIn(p)
  IN IF S = {} THEN <<p>>
     ELSE LET i == CHOOSE x \in S : \A y \in S : x <= y
          IN <<SubSeq(p, 1, i - 1)>> \o SplitAll(SubSeq(p, i + 1, Len(p)))
LastSep(p) == CHOOSE x \in SepsIn(p) : \A y \in SepsIn(p) : x >= y
PathOf(col) == SplitAll(SubSeq(col, 1, LastSep(col) - 1))
KindOf(col) == SubSeq(col, LastSep(col) + 1, Len(col))

\* Flat form: set of columns [name, value]; equal names overwrite one another.
ToFlat(t) == UNION {{[name |-> ColName(l, SumCol), v |-> t[l][1]], [name |-> ColName(l, WtCol), v |-> t[l][2]]} : l \in DOMAIN t}
PathsOf(f) == {PathOf(c.name) : c \in f}
FromFlat(f) ==
  [p \in PathsOf(f) |->
     LET of(kind) == (CHOOSE c \in f : PathOf(c.name) = p /\ KindOf(c.name) = kind).v
     IN <<of(SumCol), of(WtCol)>>]
Restore(t, form) == IF form = "tree" THEN t ELSE FromFlat(ToFlat(t))

\* --- histories of adding, saving and restoring -------------------------------
Contribution(i, L) == [l \in L |-> <<100 * i + Len(l[1]) * 10 + Len(l[2]), i>>]
AddTrees(a, b) ==
  [l \in DOMAIN a \cup DOMAIN b |->
     <<(IF l \in DOMAIN a THEN a[l][1] ELSE 0) + (IF l \in DOMAIN b THEN b[l][1] ELSE 0),
       (IF l \in DOMAIN a THEN a[l][2] ELSE 0) + (IF l \in DOMAIN b THEN b[l][2] ELSE 0)>>]
RECURSIVE Total(_, _)
Total(hp, R) == IF R = {} THEN <<>>
                ELSE LET r == CHOOSE x \in R : TRUE IN IF R = {r} THEN hp[r] ELSE AddTrees(hp[r], Total(hp, R \ {r}))

Init == \E L \in (SUBSET Leaves) \ {{}} :
          /\ h0 = [i \in 1..NReg |-> Contribution(i, L)]
          /\ h = h0 /\ live = 1..NReg /\ saves = 0 /\ hist = <<>>
Save(r, form) ==
  /\ r \in live /\ saves < MaxSaves
  /\ h' = [h EXCEPT ![r] = Restore(@, form)]
  /\ saves' = saves + 1
  /\ hist' = Append(hist, <<form, r, r>>)
  /\ UNCHANGED <<h0, live>>
Add(a, b) ==
  /\ a \in live /\ b \in live /\ a # b
  /\ h' = [h EXCEPT ![a] = AddTrees(h[a], h[b])]
  /\ live' = live \ {b}
  /\ hist' = Append(hist, <<"add", a, b>>)
  /\ UNCHANGED <<h0, saves>>
Next == \E a \in 1..NReg : Save(a, "tree") \/ Save(a, "flat") \/ \E b \in 1..NReg : Add(a, b)
Spec == Init /\ [][Next]_vars

RoundTrip == \A r \in live : Restore(h[r], "flat") = h[r]
ColumnsDistinct == \A r \in live : Cardinality(ToFlat(h[r])) = 2 * Cardinality(DOMAIN h[r])
TotalKept == Total(h, live) = Total(h0, 1..NReg)
=============================================================================
