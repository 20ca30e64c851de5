--------------------------------- MODULE Ens ---------------------------------
(* C17.  Scores of one ensemble x (a sequence of members) against a target y   *)
(* (a sequence: one value, or the members of a target ensemble).  Every score  *)
(* is an exact fraction <<numerator, denominator>>; a denominator 0 means the  *)
(* score is undefined there (missing).                                        *)
EXTENDS Stats

Undef == <<0, 0>>
Good(x) == SelectSeq(x, IsNum)
\* What the missing-value policy leaves of an ensemble.
Usable(x, skipna) == skipna \/ \A i \in DOMAIN x : IsNum(x[i])
Sum2(x, y, f(_, _)) == SumOver(DOMAIN x, LAMBDA i : SumOver(DOMAIN y, LAMBDA j : f(x[i], y[j])))
Sum1(x, f(_)) == SumOver(DOMAIN x, LAMBDA i : f(x[i]))
AbsDiff(a, b) == Abs(a - b)

\* E|X - Y|
Skill(x0, y0, skipna) ==
  IF ~Usable(x0, skipna) \/ ~Usable(y0, skipna) THEN Undef
  ELSE LET x == Good(x0)  y == Good(y0) IN <<Sum2(x, y, AbsDiff), Len(x) * Len(y)>>
\* E|X - X'|, over distinct pairs when fair
Spread(x0, fair, skipna) ==
  IF ~Usable(x0, skipna) THEN Undef
  ELSE LET x == Good(x0)  n == Len(x)
       IN <<Sum2(x, x, AbsDiff), n * (n - B01(fair))>>
\* The same from sorted members: sum of (2i - n - 1) x_(i), times 2.
Sorted(x) == SortSeq(x, LAMBDA a, b : a < b)
SpreadSorted(x, fair) ==
  LET s == Sorted(x)  n == Len(x)
  IN <<2 * SumOver(DOMAIN s, LAMBDA i : (2 * i - n - 1) * s[i]), n * (n - B01(fair))>>
\* Unbiased variance
Variance(x0, skipna) ==
  IF ~Usable(x0, skipna) THEN Undef
  ELSE LET x == Good(x0)  n == Len(x)  s == Sum1(x, LAMBDA a : a)
       IN IF n < 2 THEN Undef ELSE <<n * Sum1(x, LAMBDA a : a * a) - s * s, n * (n - 1)>>
\* Squared difference of the means, without / with removal of the sampling
\* variance of the mean(s).  tens: the target is an ensemble too.
MeanSq(x0, y0, skipna) ==
  IF ~Usable(x0, skipna) \/ ~Usable(y0, skipna) THEN Undef
  ELSE LET x == Good(x0)  y == Good(y0)  n == Len(x)  m == Len(y)
           d == m * Sum1(x, LAMBDA a : a) - n * Sum1(y, LAMBDA a : a)
       IN <<d * d, n * n * m * m>>
UnbiasedMeanSq(x0, y0, tens, skipna) ==
  LET a == MeanSq(x0, y0, skipna)
      x == Good(x0)  y == Good(y0)  n == Len(x)  m == Len(y)
      v == Variance(x0, skipna)
      w == Variance(y0, skipna)
  IN IF a[2] = 0 \/ v[2] = 0 \/ (tens /\ w[2] = 0) THEN Undef
     ELSE LET k == MaxI(1, n - 1)  h == IF tens THEN m - 1 ELSE 1
          \* common denominator n^2 (n-1) m^2 (m-1)
          IN <<a[1] * k * h - v[1] * m * m * h - (IF tens THEN w[1] * n * n * k ELSE 0), n * n * k * m * m * h>>
\* Ranked probability score over thresholds: th[k] for members, ty[k] for the
\* target; a value counts when it is at or below (or strictly below) it.
Indicator(v, th, incl) == IF ~IsNum(v) \/ ~IsNum(th) THEN NaN ELSE B01(IF incl THEN v <= th ELSE v < th)
IndSeq(x, th, incl) == [i \in DOMAIN x |-> Indicator(x[i], th, incl)]
AddFrac(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN Undef
                 ELSE IF a[2] = b[2] THEN <<a[1] + b[1], a[2]>> ELSE <<a[1] * b[2] + b[1] * a[2], a[2] * b[2]>>
Rps(x, y, th, ty, tens, fair, incl, skipna) ==
  FoldLeft(LAMBDA acc, k :
      LET ix == IndSeq(x, th[k], incl)  iy == IndSeq(y, ty[k], incl)
      IN AddFrac(acc, IF fair THEN UnbiasedMeanSq(ix, iy, tens, skipna) ELSE MeanSq(ix, iy, skipna)),
      LET n == Len(Good(x))  m == Len(Good(y))
      IN <<0, IF fair THEN n * n * MaxI(1, n - 1) * m * m * (IF tens THEN MaxI(1, m - 1) ELSE 1) ELSE n * n * m * m>>,
      [k \in DOMAIN th |-> k])
\* Area between the two distribution functions.
Wasserstein(x, y) ==
  IF ~Usable(x, FALSE) \/ ~Usable(y, FALSE) \/ x = <<>> \/ y = <<>> THEN Undef
  ELSE LET lo == MinI(Min(RangeOf(x)), Min(RangeOf(y)))
           hi == MaxI(Max(RangeOf(x)), Max(RangeOf(y)))
           le(s, z) == Cardinality({i \in DOMAIN s : s[i] <= z})
       IN <<SumOver(lo..(hi - 1), LAMBDA z : Abs(Len(y) * le(x, z) - Len(x) * le(y, z))), Len(x) * Len(y)>>
\* Rank of the target among the members (number of members below it).
RankOf(x, y) == Cardinality({i \in DOMAIN x : x[i] < y})
\* Mean over members of a pair statistic (missing members skipped on request).
MemberMean(x, f(_), skipna) ==
  LET v == [i \in DOMAIN x |-> f(x[i])]
  IN IF ~Usable(v, skipna) THEN Undef ELSE LET w == Good(v) IN <<Sum1(w, LAMBDA a : a), Len(w)>>

\* Relative economic value (times nothing: a fraction), from weighted table
\* sums tp, fp, fn of total weight w and cost/loss ratio a/b.
Rev(tp, fp, fn, w, a, b) ==
  LET base == tp + fn
      clim == MinI(a * w, b * base)
  IN <<clim - (a * (tp + fp) + b * fn), clim - a * base>>
=============================================================================
