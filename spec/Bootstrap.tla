----------------------------- MODULE Bootstrap -----------------------------
(* C20. One bootstrap replicate, drawn step by step from N experimental units *)
(* kept in groups (single units, or clusters) or as a circular series cut     *)
(* into blocks.  The statistic and the weight of a drawn unit enter the       *)
(* replicate together.  Broken = TRUE draws the weights separately.           *)
EXTENDS VLib

CONSTANTS MaxN, Kinds, Values, Broken
VARIABLES kind, n, group, ws, w, draws, blocks, num, den
vars == <<kind, n, group, ws, w, draws, blocks, num, den>>

Groups == {group[u] : u \in 1..n}
Members(g) == {u \in 1..n : group[u] = g}
Total == IF kind = "cluster" THEN Cardinality(Groups) ELSE n

Init ==
  /\ kind \in Kinds /\ n \in 1..MaxN
  /\ group \in [1..n -> 1..n] /\ (kind # "cluster" => \A u \in 1..n : group[u] = u)
  /\ kind = "cluster" => \A u \in 1..n : group[u] <= 1 + Cardinality({group[x] : x \in 1..(u - 1)})
  /\ ws \in [1..n -> Values] /\ w \in [1..n -> {1, 2}]
  /\ draws = <<>> /\ blocks = 0 /\ num = 0 /\ den = 0

SumIn(S, f) == MapThenSumSet(LAMBDA u : f[u], S)
Take(g, h) == /\ draws' = Append(draws, g)
              /\ num' = num + SumIn(Members(g), ws) /\ den' = den + SumIn(Members(h), w)
DrawFree == /\ kind # "block" /\ Len(draws) < Total
            /\ \E g \in Groups, h \in Groups : (h = g \/ Broken) /\ Take(g, h)
            /\ blocks' = blocks + 1 /\ UNCHANGED <<kind, n, group, ws, w>>
\* Blocks: a new block begins anywhere; inside a block the series continues,
\* from its last unit to its first.
NewBlock == /\ kind = "block" /\ Len(draws) < Total
            /\ \E g \in Groups : Take(g, g)
            /\ blocks' = blocks + 1 /\ UNCHANGED <<kind, n, group, ws, w>>
Continue == /\ kind = "block" /\ draws # <<>> /\ Len(draws) < Total
            /\ LET g == (draws[Len(draws)] % n) + 1 IN Take(g, g)
            /\ UNCHANGED <<blocks, kind, n, group, ws, w>>
Next == DrawFree \/ NewBlock \/ Continue
Spec == Init /\ [][Next]_vars

Done == Len(draws) = Total
Count(g) == Cardinality({i \in DOMAIN draws : draws[i] = g})
Mult(u) == Count(group[u])
\* One multiset of groups explains both sums.
Joint == Done => /\ num = MapThenSumSet(LAMBDA u : Mult(u) * ws[u], 1..n)
                 /\ den = MapThenSumSet(LAMBDA u : Mult(u) * w[u], 1..n)
TotalDrawn == Done => MapThenSumSet(Count, Groups) = Total
\* A series cut into b blocks: at most b rises of the counts around the circle,
\* and one block takes every unit once.
Rises == MapThenSumSet(LAMBDA u : MaxI(0, Count((u % n) + 1) - Count(u)), 1..n)
RisesBound == kind = "block" /\ Done => Rises <= blocks
OneBlock == kind = "block" /\ Done /\ blocks = 1 => \A u \in 1..n : Count(u) = 1
=============================================================================
