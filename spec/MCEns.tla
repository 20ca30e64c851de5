------------------------------- MODULE MCEns -------------------------------
(* Ensembles are grown member by member (and so is the target ensemble);      *)
(* alternative formulas of each score are compared on every one reached.      *)
EXTENDS Ens, Json
CONSTANTS Hi, MaxN, MaxM, WithNan
VARIABLES x, y
vars == <<x, y>>
Vals == (0..Hi) \cup (IF WithNan THEN {NaN} ELSE {})
Init == x = <<>> /\ y = <<>>
Member(v) == Len(x) < MaxN /\ y = <<>> /\ x' = Append(x, v) /\ UNCHANGED y
Target(v) == x # <<>> /\ Len(y) < MaxM /\ y' = Append(y, v) /\ UNCHANGED x
Done == UNCHANGED vars
Next == (\E v \in Vals : Member(v) \/ Target(v)) \/ Done
Spec == Init /\ [][Next]_vars
Rev1(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Eq(a, b) == (a[2] = 0 /\ b[2] = 0) \/ (a[2] # 0 /\ b[2] # 0 /\ a[1] * b[2] = b[1] * a[2])
Minus(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN Undef ELSE <<a[1] * b[2] - b[1] * a[2], a[2] * b[2]>>
Half(a) == <<a[1], 2 * a[2]>>
Ready == x # <<>> /\ y # <<>>
Clean == Ready /\ Usable(x, FALSE) /\ Usable(y, FALSE)
N == Len(x)
SortForm == (x # <<>> /\ Usable(x, FALSE)) =>
  \A f \in {TRUE, FALSE} : Eq(Spread(x, f, FALSE), SpreadSorted(x, f))
SkipIsDrop == Ready => \A f \in {TRUE, FALSE} :
  /\ Eq(Spread(x, f, TRUE), Spread(Good(x), f, FALSE)) /\ Eq(Skill(x, y, TRUE), Skill(Good(x), Good(y), FALSE))
  /\ Eq(Variance(x, TRUE), Variance(Good(x), FALSE))
MissingPropagates == (Ready /\ \E i \in DOMAIN x : x[i] = NaN) =>
  /\ Skill(x, y, FALSE) = Undef /\ Spread(x, TRUE, FALSE) = Undef /\ Variance(x, FALSE) = Undef
  /\ UnbiasedMeanSq(x, y, TRUE, FALSE) = Undef
OrderFree == Ready => \A f \in {TRUE, FALSE} :
  /\ Spread(Rev1(x), f, f) = Spread(x, f, f) /\ Skill(Rev1(x), y, f) = Skill(x, y, f)
  /\ UnbiasedMeanSq(Rev1(x), Rev1(y), TRUE, f) = UnbiasedMeanSq(x, y, TRUE, f)
\* CRPS is the integral of the squared difference of distribution functions,
\* and the sum of ranked probability scores over all thresholds.
Crps(f) == Minus(Skill(x, y, FALSE), Half(Spread(x, f, FALSE)))
Thresholds == [i \in 1..Hi |-> i - 1]
Integral == (Clean /\ Len(y) = 1) =>
  /\ Eq(Crps(FALSE), Rps(x, y, Thresholds, Thresholds, FALSE, FALSE, TRUE, FALSE))
  /\ (N > 1 => Eq(Crps(TRUE), Rps(x, y, Thresholds, Thresholds, FALSE, TRUE, TRUE, FALSE)))
  /\ LET c == Crps(FALSE) IN c[1] >= 0
\* Unbiased squared error of the mean: mean over distinct pairs.
PairProduct == (Clean /\ Len(y) = 1 /\ N > 1) =>
  Eq(UnbiasedMeanSq(x, y, FALSE, FALSE),
     <<SumOver({q \in (1..N) \X (1..N) : q[1] # q[2]}, LAMBDA q : (x[q[1]] - y[1]) * (x[q[2]] - y[1])), N * (N - 1)>>)
PairVariance == (Clean /\ N > 1) =>
  Eq(Variance(x, FALSE), <<Sum2(x, x, LAMBDA a, b : (a - b) * (a - b)), 2 * N * (N - 1)>>)
SortedPairing == (Clean /\ Len(y) = N) =>
  /\ Eq(Wasserstein(x, y), LET s == Sorted(x)  t == Sorted(y) IN <<SumOver(1..N, LAMBDA i : Abs(s[i] - t[i])), N>>)
  /\ Eq(Wasserstein(x, y), Wasserstein(y, x))
OneRank == (Clean /\ Len(y) = 1) =>
  /\ RankOf(x, y[1]) \in 0..N /\ RankOf(Rev1(x), y[1]) = RankOf(x, y[1])
  /\ LET s == Sorted(x)  r == RankOf(x, y[1])
     IN (r > 0 => s[r] < y[1]) /\ (r < N => s[r + 1] >= y[1])
\* The value of perfect warnings is 1, of always / never warning at most 0.
Economic == Clean => \A tp \in 0..3, fn \in 0..2, fp \in 0..2, tn \in 1..2, a \in 1..3 :
  LET w == tp + fn + fp + tn
      v == Rev(tp, fp, fn, w, a, 4)
  IN /\ v[2] >= 0 /\ v[1] <= v[2]
     /\ (fp = 0 /\ fn = 0) => v[1] = v[2]
     /\ Rev(0, 0, tp + fn, w, a, 4)[1] <= 0 /\ Rev(tp + fn, w - tp - fn, 0, w, a, 4)[1] <= 0
Emit == (N = MaxN /\ Ready) => PrintT("CASE " \o ToJson([x |-> x, y |-> y]))
=============================================================================
