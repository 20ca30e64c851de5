-------------------------------- MODULE Stats --------------------------------
(* C16, C24.  Statistics as functions of one forecast/target pair, metrics as  *)
(* functions of the (weighted) means of statistics over all pairs.            *)
(* A statistic's value at an element is an integer number of units, NaN when  *)
(* missing.  Sums are kept as integers: <<sum of weight x value, weight>>.    *)
EXTENDS VLib, Wide

BoolStats == {"TP", "TN", "FP", "FN"}
B01(b) == IF b THEN 1 ELSE 0
\* Binary events; with a threshold v > thr (strict), missing stays missing.
Event(v) == IF ~IsNum(v) THEN (IF v = NaN THEN NaN ELSE 1) ELSE B01(v # 0)
Above(v, thr) == IF v = NaN THEN NaN ELSE B01(v > thr)
Table(s, p, t) ==
  IF p = NaN \/ t = NaN THEN NaN
  ELSE CASE s = "TP" -> B01(p = 1 /\ t = 1)
         [] s = "TN" -> B01(p = 0 /\ t = 0)
         [] s = "FP" -> B01(p = 1 /\ t = 0)
         [] s = "FN" -> B01(p = 0 /\ t = 1)
\* Deterministic errors; v is the sequence of inputs at the element.
Pair(s, v) ==
  LET p == v[1]  t == v[2]
      e == NSub(p, t)
  IN CASE s \in BoolStats -> Table(s, Event(p), Event(t))
       [] s = "Error" -> e
       [] s = "AbsoluteError" -> IF IsNum(e) THEN Abs(e) ELSE NaN
       [] s = "SquaredError" -> NMul(e, e)
       [] s = "Prediction" -> p
       [] s = "Target" -> t
       [] s = "PredictionWithTargetNans" -> IF t = NaN THEN NaN ELSE p
       [] s = "TargetWithPredictionNans" -> IF p = NaN THEN NaN ELSE t
       [] s = "ErrorExceedance" -> IF ~IsNum(e) \/ v[3] = NaN THEN NaN ELSE B01(Abs(e) > v[3])
       \* inputs u, v components of forecast and target
       [] s = "WindSquaredError" ->
            LET du == NSub(v[1], v[3])  dv == NSub(v[2], v[4])
            IN NAdd(NMul(du, du), NMul(dv, dv))
\* The same for thresholded inputs (which: the inputs that are thresholded).
PairAbove(s, which, v) ==
  LET p == IF which \in {"both", "predictions"} THEN Above(v[1], v[3]) ELSE Event(v[1])
      t == IF which \in {"both", "targets"} THEN Above(v[2], v[3]) ELSE Event(v[2])
  IN Table(s, p, t)
\* Value in the bin (lo, hi].
InBin(v, lo, hi) == IF v = NaN THEN NaN ELSE B01(v > lo /\ v <= hi)
\* The same for inputs turned into membership of a category (lo, hi]; v[3] = lo,
\* v[4] = hi.
PairInBin(s, which, v) ==
  LET p == IF which \in {"bins-both", "bins-predictions"} THEN InBin(v[1], v[3], v[4]) ELSE Event(v[1])
      t == IF which \in {"bins-both", "bins-targets"} THEN InBin(v[2], v[3], v[4]) ELSE Event(v[2])
  IN Table(s, p, t)


\* ---- sums over a set of elements, as <<weighted sum, weight>>
MeanOf(E, val(_), wt(_)) == <<NSum(E, LAMBDA g : NMul(val(g), wt(g))), SumOver(E, wt)>>

\* ---- categorical scores as <<numerator, denominator>> of the averaged table
Scores == {"CSI", "Accuracy", "Recall", "FalseAlarmRate", "Precision", "F1Score", "FrequencyBias", "HSS", "ETS"}
Score(m, tp, fp, fn, tn) ==
  CASE m = "CSI" -> <<tp, tp + fp + fn>>
    [] m = "Accuracy" -> <<tp + tn, tp + fp + fn + tn>>
    [] m = "Recall" -> <<tp, tp + fn>>
    [] m = "FalseAlarmRate" -> <<fp, tp + fp>>
    [] m = "Precision" -> <<tp, tp + fp>>
    [] m = "F1Score" -> <<2 * tp, 2 * tp + fp + fn>>
    [] m = "FrequencyBias" -> <<tp + fp, tp + fn>>
    [] m = "HSS" -> <<2 * (tp * tn - fp * fn), (tp + fn) * (fn + tn) + (tp + fp) * (fp + tn)>>
    [] m = "ETS" -> LET all == tp + fp + fn + tn
                        r == (tp + fp) * (tp + fn)
                    IN <<tp * all - r, (tp + fp + fn) * all - r>>

\* ---- comparison of logged values (scale S) with exact definitions
\* obs/S = num/den
RatAgrees(obs, num, den, S, tol) ==
  IF ~IsNum(num) THEN obs = NaN
  ELSE IF den = 0 THEN (IF num = 0 THEN obs = NaN ELSE ~IsNum(obs))
  ELSE /\ IsNum(obs)
       /\ LET n == IF (num < 0) # (den < 0) THEN -Abs(num) ELSE Abs(num)
              d == Abs(den)
              o == IF n < 0 THEN -obs ELSE obs
          IN /\ o >= -tol
             /\ WLeq(WMul(Pos(o - tol), d), WMul(Abs(n), S))
             /\ WLeq(WMul(Abs(n), S), WMul(Pos(o) + tol, d))
\* obs/S = sqrt(num/den); obs below 32000, S at most 32000
SqrtAgrees(obs, num, den, S, tol) ==
  IF ~IsNum(num) \/ den = 0 THEN obs = NaN \/ (IsNum(num) /\ num # 0 /\ obs = PInf)
  ELSE /\ IsNum(obs) /\ obs >= 0 /\ obs < 32000
       /\ WLeq(WMul(Pos(obs - tol) * Pos(obs - tol), den), WMul(num, S * S))
       /\ WLeq(WMul(num, S * S), WMul((obs + tol) * (obs + tol), den))
\* obs/S = c / sqrt(a*b)
CorAgrees(obs, c, a, b, S, tol) ==
  IF ~IsNum(c) \/ ~IsNum(a) \/ ~IsNum(b) \/ a = 0 \/ b = 0 THEN ~IsNum(obs)
  ELSE /\ IsNum(obs) /\ Abs(obs) < 32000
       /\ LET o == IF c < 0 THEN -obs ELSE obs
          IN /\ o >= -tol
             /\ WLeq(WMul(Pos(o - tol) * Pos(o - tol), a * b), WMul(c * c, S * S))
             /\ WLeq(WMul(c * c, S * S), WMul((Pos(o) + tol) * (Pos(o) + tol), a * b))
=============================================================================
