------------------------------ MODULE TraceClim ------------------------------
(* Judges recorded climatology-based statistics and metrics.                  *)
EXTENDS Clim, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

On(o, a) == [d \in DimSet(a) |-> o[d]]
\* Valid time: the sum of one or two labelled arrays of minutes.
VT(e, o) == SumOver(DOMAIN e.times, LAMBDA i : ValAt(e.times[i], On(o, e.times[i])))

\* ---- frames
Frame(sets) == \* sequence of functions dim -> label set
  TLCEval([d \in UNION {DOMAIN sets[i] : i \in DOMAIN sets} |->
    {x \in UNION {sets[i][d] : i \in {j \in DOMAIN sets : d \in DOMAIN sets[j]}} :
       \A i \in DOMAIN sets : d \in DOMAIN sets[i] => x \in sets[i][d]}])
LabFn(a, ds) == [d \in ds |-> LabelSet(a, d)]
ArrFn(a) == LabFn(a, DimSet(a))
ClimFn(c) == LabFn(c, SpaceDims(c))
MemberFn(a) == LabFn(a, DimSet(a) \ {"number"})
JudgeFrame(out, fr, ds) ==
  IF ~WellFormed(out) THEN {"result-malformed"}
  ELSE Fail("result-dimensions", DimSet(out) = ds)
       \cup (IF DimSet(out) = ds
             THEN Fail("result-labels", \A d \in ds : LabelSet(out, d) = fr[d])
             ELSE {})
\* Valid times of the forecast.
TimesOf(e) == {VT(e, AsgAt(e.p, k)) : k \in 1..Size(e.p)}
AllEntries(e) == \A m \in TLCEval(TimesOf(e)) : HasEntry(e.c, m)
\* A call may fail only because the climatology lacks an entry.
Rejected(e) == Fail("raised", ~AllEntries(e))

Anom(e, s, o) ==
  LET m == VT(e, o)
  IN Anomaly(s, IF s = "SquaredTargetAnomaly" THEN 0 ELSE ValAt(e.p, On(o, e.p)),
                IF s = "SquaredPredictionAnomaly" THEN 0 ELSE ValAt(e.t, On(o, e.t)), ClimAt(e.c, o, m))
AnomFrame(e, s) ==
  Frame(CASE s = "SquaredPredictionAnomaly" -> <<ArrFn(e.p), ClimFn(e.c)>>
          [] s = "SquaredTargetAnomaly" -> <<ArrFn(e.t), ClimFn(e.c)>> \o [i \in DOMAIN e.times |-> LabFn(e.times[i], DimSet(e.times[i]))]
          [] s = "AnomalyCovariance" -> <<ArrFn(e.p), ArrFn(e.t), ClimFn(e.c)>>)

JudgeAnom(e) ==
  IF ~e.ok THEN Rejected(e)
  ELSE LET fr == AnomFrame(e, e.stat)
           f == JudgeFrame(e.out, fr, DOMAIN fr)
       IN IF f # {} THEN f
          ELSE UNION {LET x == Anom(e, e.stat, AsgAt(e.out, k))
                      IN Fail(IF IsNum(x) THEN "anomaly-value" ELSE "missing-not-missing", e.out.data[k] = x)
                      : k \in 1..Size(e.out)}

RECURSIVE WProd(_, _, _)
WProd(W, g, i) == IF i > Len(W) THEN 1 ELSE ValAt(W[i], On(g, W[i])) * WProd(W, g, i + 1)
Elems(e, fr, o) == {o @@ r : r \in FrameAsgs({d \in RangeOf(e.r) : d \in DOMAIN fr}, fr)}
Mean(e, fr, o, val(_)) ==
  LET E == Elems(e, fr, o) IN MeanOf(E, val, LAMBDA g : WProd(e.w, g, 1))
JudgeAcc(e) ==
  IF ~e.ok THEN Rejected(e)
  ELSE LET fr == AnomFrame(e, IF e.metric = "ACC" THEN "AnomalyCovariance" ELSE "SquaredPredictionAnomaly")
           f == JudgeFrame(e.out, fr, DOMAIN fr \ RangeOf(e.r))
           M(s, o) == Mean(e, fr, o, LAMBDA g : Anom(e, s, g))
       IN IF f # {} THEN f
          ELSE UNION {
            LET o == AsgAt(e.out, k)
                obs == e.out.data[k]
                a == TLCEval(M("SquaredPredictionAnomaly", o))
            IN IF e.metric = "PredictionActivity"
               THEN Fail("activity", SqrtAgrees(obs, a[1], a[2], e.S, e.tol))
               ELSE LET b == TLCEval(M("SquaredTargetAnomaly", o))
                        c == TLCEval(M("AnomalyCovariance", o))
                    IN Fail("anomaly-correlation", IF a[2] = 0 THEN ~IsNum(obs) ELSE CorAgrees(obs, c[1], a[1], b[1], e.S, e.tol))
            : k \in 1..Size(e.out)}

\* ---- intervals.  Value: 0/1, NaN when missing, -1 when left open (ensemble
\* with some missing members, or a tie in inexact arithmetic).
Members(e, o) == LET N == LabelsOf(e.p, "number") IN [i \in DOMAIN N |-> ValAt(e.p, On(o @@ [number |-> N[i]], e.p))]
Open(x) == \E i, j \in DOMAIN x : IsNum(x[i]) /\ ~IsNum(x[j])
Gone(x) == \A i \in DOMAIN x : ~IsNum(x[i])
Interval(e, s, o) ==
  LET x == Members(e, o)
      q == e.q[s]
      t == IF s = "Covered" THEN ValAt(e.t, On(o, e.t)) ELSE 0
      m == IF s = "Covered" THEN 0 ELSE VT(e, o)
      cl == IF s = "Covered" THEN 0 ELSE ClimQ(e.c, o, m, q[1])
      ch == IF s = "Covered" THEN 0 ELSE ClimQ(e.c, o, m, q[2])
  IN IF Gone(x) \/ ~IsNum(t) \/ ~IsNum(cl) \/ ~IsNum(ch) THEN NaN
     ELSE IF Open(x) THEN -1
     ELSE LET xl == QuantileQ(x, q[1])  xh == QuantileQ(x, q[2])
          IN CASE s = "Covered" -> B01(Covered(xl, xh, t))
               [] s = "Confident" -> IF e.tiesopen /\ (xh - xl) * e.th[s][2] = e.th[s][1] * 4 * (ch - cl) THEN -1
                                     ELSE B01(Confident(xl, xh, cl, ch, e.th[s][1], e.th[s][2]))
               [] s = "JaccardDistant" -> B01(JaccardDistant(xl, xh, 4 * cl, 4 * ch, e.th[s][1], e.th[s][2]))
IntFrame(e, s) == IF s = "Covered" THEN Frame(<<MemberFn(e.p), ArrFn(e.t)>>) ELSE Frame(<<MemberFn(e.p), ClimFn(e.c)>>)
JudgeInterval(e) ==
  IF ~e.ok THEN (IF e.stat = "Covered" THEN {"raised"} ELSE Rejected(e))
  ELSE LET fr == IntFrame(e, e.stat)
           f == JudgeFrame(e.out, fr, DOMAIN fr)
       IN IF f # {} THEN f
          ELSE UNION {LET x == Interval(e, e.stat, AsgAt(e.out, k))
                      IN IF x = -1 THEN {} ELSE
                         Fail(IF IsNum(x) THEN "interval-value" ELSE "missing-not-missing", e.out.data[k] = x)
                      : k \in 1..Size(e.out)}
\* Opportunism: product of the averaged conditions (or their complements).
JudgeOpp(e) ==
  IF ~e.ok THEN Rejected(e)
  ELSE LET ss == {s \in {"Confident", "Covered", "JaccardDistant"} : e.use[s] # 2}
           fr == Frame(<<MemberFn(e.p), ClimFn(e.c)>> \o (IF "Covered" \in ss THEN <<ArrFn(e.t)>> ELSE <<>>))
           f == JudgeFrame(e.out, fr, DOMAIN fr \ RangeOf(e.r))
       IN IF f # {} THEN f
          ELSE UNION {
            LET o == AsgAt(e.out, k)
                E == Elems(e, fr, o)
                cell == TLCEval([s \in ss |-> [g \in E |-> Interval(e, s, g)]])
                open == \E s \in ss : \E g \in E : cell[s][g] = -1
                one(s) == LET x == MeanOf(E, LAMBDA g : cell[s][g], LAMBDA g : WProd(e.w, g, 1))
                          IN IF e.use[s] = 1 THEN x ELSE <<NSub(x[2], x[1]), x[2]>>
                num == FoldSet(LAMBDA s, acc : NMul(acc, one(s)[1]), 1, ss)
                den == FoldSet(LAMBDA s, acc : acc * one(s)[2], 1, ss)
            IN IF open THEN {} ELSE Fail("opportunism", RatAgrees(e.out.data[k], num, den, e.S, e.tol))
            : k \in 1..Size(e.out)}

\* ---- SEEPS
DrySum(e, o) ==
  LET D == e.dryfrac
      ds == SpaceDims(D)
      K == FrameAsgs(DimSet(D) \cap TimeDims, [d \in DimSet(D) |-> LabelSet(D, d)])
      vals == {k \in K : IsNum(ValAt(D, On(o @@ k, D)))}
  IN <<SumOver(vals, LAMBDA k : ValAt(D, On(o @@ k, D))), e.unit * Cardinality(vals)>>
JudgeSeeps(e) ==
  IF ~e.ok THEN Fail("raised", \E m \in TimesOf(e) : ~HasEntry(e.c, m))
  ELSE LET fr == Frame(<<ArrFn(e.p), ArrFn(e.t), ClimFn(e.c)>>)
           f == JudgeFrame(e.out, fr, DOMAIN fr)
       IN IF f # {} THEN f
          ELSE IF ~WellFormed(e.mask) \/ ~(DimSet(e.mask) \subseteq DOMAIN fr) THEN {"mask-malformed"}
          ELSE UNION {
            LET o == AsgAt(e.out, k)
                d == DrySum(e, o)
                inb == d[2] > 0 /\ d[1] * e.minp[2] >= e.minp[1] * d[2] /\ d[1] * e.maxp[2] <= e.maxp[1] * d[2]
                wet == ClimAt(e.c, o, VT(e, o))
                given == e.maskin = <<>> \/ ValAt(e.maskin[1], On(o, e.maskin[1])) = 1
                p == ValAt(e.p, On(o, e.p))  t == ValAt(e.t, On(o, e.t))
                obs == e.out.data[k]
            IN Fail("seeps-mask", (ValAt(e.mask, On(o, e.mask)) = 1) = (inb /\ wet # NaN /\ given))
               \cup IF ~inb \/ wet = NaN \/ p = NaN \/ t = NaN THEN Fail("missing-not-missing", obs = NaN)
                    ELSE IF d[1] = 0 \/ d[1] = d[2] THEN {}   \* always or never dry: scores divide by zero
                    ELSE LET q == Penalty2(Category(p, e.dry, wet), Category(t, e.dry, wet), d[1], d[2])
                         IN Fail("seeps-score", RatAgrees(obs, q[1], 2 * q[2], e.S, e.tol))
            : k \in 1..Size(e.out)}

Judge(e) ==
  (CASE e.op = "anom" -> JudgeAnom(e)
    [] e.op = "acc" -> JudgeAcc(e)
    [] e.op = "interval" -> JudgeInterval(e)
    [] e.op = "opportunism" -> JudgeOpp(e)
    [] e.op = "seeps" -> JudgeSeeps(e)
    [] e.op = "rejected" -> Fail("bad-request-accepted", ~e.ok))
  \cup (IF "unchanged" \in DOMAIN e THEN Fail("inputs-changed", e.unchanged) ELSE {})
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET b == Judge(Trace[l])
            IN IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson(<<l, SetToSeq(b)>>))
         /\ IF l = Len(Trace) THEN PrintT("DONE " \o ToJson(l)) ELSE TRUE
TSpec == TInit /\ [][TNext]_l
=============================================================================
