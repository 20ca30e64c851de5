----------------------------- MODULE Aggregate ------------------------------
(* C03 / C04.  The aggregator as an accumulator that visits the elements of a *)
(* statistic in some order and adds each one to every bin it belongs to.      *)
(* An element contributes iff it is not masked out and not skipped as NaN.    *)
EXTENDS LArr

\* ---- abstract aggregation of a finite set of elements ----------------------
\* val, wt : element -> number;  ok : element -> mask;  memb : element -> set of bins
Contributes(masked, skipna, ok, v) == (masked => ok) /\ (skipna => v # NaN)
SumFor(E, b, val, wt, ok, memb, masked, skipna) ==
  LET C == {e \in E : Contributes(masked, skipna, ok[e], val[e])}
      \* an unmasked NaN anywhere among the visited elements poisons the bin it is in
      I == {e \in C : b \in memb[e]}
  IN <<XSum(I, LAMBDA e : XMulPos(val[e], wt[e])), SumOver(I, LAMBDA e : wt[e])>>

CONSTANTS Elems, Bins
VARIABLES val, ok, memb, masked, skipna, todo, acc
vars == <<val, ok, memb, masked, skipna, todo, acc>>
Wt == [e \in Elems |-> 2 * e - 1]
Vals(e) == {10 * e, NaN} \cup (IF e = 1 THEN {PInf} ELSE IF e = 2 THEN {NInf} ELSE {})

Init ==
  /\ val \in {f \in [Elems -> UNION {Vals(e) : e \in Elems}] : \A e \in Elems : f[e] \in Vals(e)}
  /\ ok \in [Elems -> BOOLEAN]
  /\ memb \in [Elems -> SUBSET Bins]
  /\ masked \in BOOLEAN /\ skipna \in BOOLEAN
  /\ todo = Elems
  /\ acc = [b \in Bins |-> <<0, 0>>]
Visit(e) ==
  /\ e \in todo
  /\ todo' = todo \ {e}
  /\ acc' = [b \in Bins |->
       IF b \in memb[e] /\ Contributes(masked, skipna, ok[e], val[e])
       THEN <<XAdd(acc[b][1], XMulPos(val[e], Wt[e])), acc[b][2] + Wt[e]>>
       ELSE acc[b]]
  /\ UNCHANGED <<val, ok, memb, masked, skipna>>
Next == \E e \in Elems : Visit(e)
Spec == Init /\ [][Next]_vars

Done == todo = {}
Res(E, v) == [b \in Bins |-> SumFor(E, b, v, Wt, ok, memb, masked, skipna)]

AccIsDefinition == acc = Res(Elems \ todo, val)
\* With one infinity in a bin the sum is that infinity: it is neither skipped nor made finite.
InfinityCounts == Done => \A b \in Bins, e \in Elems :
  (b \in memb[e] /\ val[e] \in {PInf, NInf} /\ (masked => ok[e])) => acc[b][1] \in {val[e], NaN}
\* Masked-out or skipped elements cannot influence the result.
NoLeak == Done => \A e \in Elems :
  (masked /\ ~ok[e]) => \A v \in {0, NaN, 999} : Res(Elems, [val EXCEPT ![e] = v]) = acc
\* Unmasked NaNs are never hidden unless skipping was asked for.
NaNPropagates == Done /\ ~skipna => \A b \in Bins, e \in Elems :
  (b \in memb[e] /\ val[e] = NaN /\ (masked => ok[e])) => acc[b][1] = NaN
\* With skipping exactly the non-NaN unmasked elements count.
SkipCounts == Done /\ skipna => \A b \in Bins :
  acc[b][2] = SumOver({e \in Elems : b \in memb[e] /\ val[e] # NaN /\ (masked => ok[e])}, LAMBDA e : Wt[e])
EmptyBinUndefined == Done => \A b \in Bins : (\A e \in Elems : b \notin memb[e]) => acc[b] = <<0, 0>>
\* Evaluating two parts separately and adding gives the whole.
Splits == Done => \A S \in SUBSET Elems : \A b \in Bins :
  LET p == Res(S, val)[b] q == Res(Elems \ S, val)[b]
  IN acc[b] = <<XAdd(p[1], q[1]), p[2] + q[2]>>
\* Bins that partition the elements share out the total weight.
PartitionTotals == Done /\ (\A e \in Elems : Cardinality(memb[e]) = 1) =>
  SumOver(Bins, LAMBDA b : acc[b][2]) =
    SumOver({e \in Elems : Contributes(masked, skipna, ok[e], val[e])}, LAMBDA e : Wt[e])

\* ---- aggregation of a labelled statistic array (used by the trace spec) ----
\* W: sequence of weight arrays; B: sequence of [dim, arr] bin masks (0/1);
\* M: sequence holding at most one mask array.
BinDims(B) == {B[i].dim : i \in DOMAIN B}
Kept(stat, R, B) ==
  /\ R \subseteq DimSet(stat)
  /\ \A i \in DOMAIN B : (DimSet(B[i].arr) \ {B[i].dim}) \subseteq DimSet(stat)
RECURSIVE ProdSeq(_, _)
ProdSeq(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * ProdSeq(s, i + 1)
WeightAt(W, g) == ProdSeq([i \in DOMAIN W |-> ValAt(W[i], g)], 1)
BinAt(B, g) == ProdSeq([i \in DOMAIN B |-> ValAt(B[i].arr, g)], 1)

OutFrame(stat, R, B) ==
  [d \in (DimSet(stat) \ R) \cup BinDims(B) |->
     IF d \in BinDims(B) THEN LabelSet(B[CHOOSE i \in DOMAIN B : B[i].dim = d].arr, d)
     ELSE LabelSet(stat, d)]

\* Verdict clauses for one observed pair (s, w) of aggregated arrays.
AggVerdict(s, w, stat, M, msk, skp, R, W, B) ==
  LET fr == OutFrame(stat, R, B)
      ds == DOMAIN fr
      RA == FrameAsgs(R, [d \in R |-> LabelSet(stat, d)])
      valid(g) == Contributes(msk /\ M # <<>>, skp, M = <<>> \/ ValAt(M[1], g) = 1, ValAt(stat, g))
      framed(a) == WellFormed(a) /\ DimSet(a) = ds /\ \A d \in ds : LabelSet(a, d) = fr[d]
  IN IF ~framed(s) THEN {"weighted-sum-frame"}
     ELSE IF ~framed(w) THEN {"weight-sum-frame"}
     ELSE UNION {
       LET o == AsgAt(s, k)
           G == {o @@ r : r \in RA}
           C == {g \in G : valid(g)}
           in(g) == BinAt(B, g) # 0 /\ WeightAt(W, g) # 0
           ns == XSum({g \in C : in(g)}, LAMBDA g : XMulPos(ValAt(stat, g), BinAt(B, g) * WeightAt(W, g)))
           outsideNaN == \E g \in C : ~in(g) /\ ~IsNum(ValAt(stat, g))
           obs == s.data[k]
       IN Fail(IF ns # NaN THEN "weighted-sum" ELSE "nan-hidden",
               obs = ns \/ (outsideNaN /\ obs = NaN))
          \cup Fail("weight-sum",
               ValAt(w, o) = SumOver(C, LAMBDA g : BinAt(B, g) * WeightAt(W, g)))
       : k \in 1..Size(s)}
=============================================================================
