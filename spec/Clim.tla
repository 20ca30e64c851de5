-------------------------------- MODULE Clim --------------------------------
(* C23.  Statistics relative to a climatology.  A time is a number of minutes *)
(* since 1970-01-01.  A climatology holds an entry per day of the year, per   *)
(* day of the year and hour, or per time; the entry of an element is that of  *)
(* its own valid time, and without one the element has no value.              *)
EXTENDS LArr, Stats, Calendar

DayNo(m) == m \div 1440
HourOf(m) == (m % 1440) \div 60
ClimKey(m) == [dayofyear |-> DayOfYear(DayNo(m)), hour |-> HourOf(m), time |-> m]
TimeDims == {"dayofyear", "hour", "time"}
SpaceDims(c) == DimSet(c) \ (TimeDims \cup {"quantile"})
\* Position of the entry for valid time m in climatology c at assignment o of
\* the other dimensions.
Entry(c, o, m) == [d \in DimSet(c) |-> IF d \in TimeDims THEN ClimKey(m)[d] ELSE o[d]]
HasEntry(c, m) == \A d \in TimeDims \cap DimSet(c) : ClimKey(m)[d] \in LabelSet(c, d)
ClimAt(c, o, m) == IF HasEntry(c, m) THEN ValAt(c, Entry(c, o, m)) ELSE NaN
\* Quantile q (in quarters) of a climatology of quantiles.
ClimQ(c, o, m, q) == ClimAt(c, o @@ [quantile |-> q], m)

\* ---- anomalies
Anomaly(s, p, t, c) ==
  LET a == NSub(p, c)  b == NSub(t, c)
  IN CASE s = "SquaredPredictionAnomaly" -> NMul(a, a)
       [] s = "SquaredTargetAnomaly" -> NMul(b, b)
       [] s = "AnomalyCovariance" -> NMul(a, b)

\* ---- intervals of an ensemble x (a sequence of members), in quarter units:
\* quantile q/4 with linear interpolation between sorted members.
QuantileQ(x, q) ==
  LET s == SortSeq(x, LAMBDA a, b : a < b)
      n == Len(s)
      i == (q * (n - 1)) \div 4
      r == (q * (n - 1)) % 4
  IN 4 * s[i + 1] + (IF r = 0 THEN 0 ELSE r * (s[i + 2] - s[i + 1]))
\* Interval narrower than num/den of the climatological one.
Confident(xl, xh, cl, ch, num, den) == (xh - xl) * den < num * 4 * (ch - cl)
Covered(xl, xh, t) == xl <= 4 * t /\ 4 * t <= xh
\* 1 - |intersection| / |union|; of single points 0 if identical, 1 if not
JaccardDistance(al, ah, bl, bh) ==
  LET i == MaxI(0, MinI(ah, bh) - MaxI(al, bl))
      u == (ah - al) + (bh - bl) - i
  IN IF u > 0 THEN <<u - i, u>> ELSE <<B01(al # bl), 1>>
JaccardDistant(al, ah, bl, bh, num, den) ==
  LET d == JaccardDistance(al, ah, bl, bh) IN d[1] * den > num * d[2]

\* ---- SEEPS with dry probability a/b: twice the penalty, as a fraction.
Category(v, dry, wet) == IF v <= dry THEN "dry" ELSE IF v < wet THEN "light" ELSE "heavy"
Penalty2(f, o, a, b) ==
  CASE f = o -> <<0, 1>>
    [] f = "dry" /\ o = "light" -> <<b, b - a>>
    [] f = "dry" /\ o = "heavy" -> <<4 * b, b - a>>
    [] f = "light" /\ o = "dry" -> <<b, a>>
    [] f = "light" /\ o = "heavy" -> <<3 * b, b - a>>
    [] f = "heavy" /\ o = "dry" -> <<b * (2 * b + a) + 3 * b * a, a * (2 * b + a)>>
    [] f = "heavy" /\ o = "light" -> <<3 * b, 2 * b + a>>
=============================================================================
