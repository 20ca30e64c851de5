----------------------------- MODULE TraceStats -----------------------------
(* Judges recorded statistics and metric values.  An event carries the input  *)
(* arrays (forecast, target, possibly thresholds / vector components), the    *)
(* weights, the averaged dimensions and the observed result.                  *)
EXTENDS Stats, LArr, LogTable, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

\* ---- frame: every dimension of any input; labels common to those having it
InDims(ins) == UNION {DimSet(ins[i]) : i \in DOMAIN ins}
Common(ins, d) ==
  LET has == {i \in DOMAIN ins : d \in DimSet(ins[i])}
  IN {x \in LabelSet(ins[CHOOSE i \in has : TRUE], d) : \A i \in has : x \in LabelSet(ins[i], d)}
FrameOf(ins) == TLCEval([d \in InDims(ins) |-> Common(ins, d)])
Vals(ins, g) == [i \in DOMAIN ins |-> ValAt(ins[i], g)]
Cell(e, s, g) ==
  IF e.bin = "" THEN Pair(s, Vals(e.ins, g))
  ELSE IF e.bin \in {"both", "predictions", "targets"} THEN PairAbove(s, e.bin, Vals(e.ins, g))
  ELSE PairInBin(s, e.bin, Vals(e.ins, g))

JudgeFrame(out, fr, ds) ==
  IF ~WellFormed(out) THEN {"result-malformed"}
  ELSE Fail("result-dimensions", DimSet(out) = ds)
       \cup (IF DimSet(out) = ds
             THEN Fail("result-labels", \A d \in ds : LabelSet(out, d) = fr[d])
             ELSE {})

JudgeStat(e) ==
  IF ~e.ok THEN {"statistic-raised"}
  ELSE LET fr == FrameOf(e.ins)
           f == JudgeFrame(e.out, fr, DOMAIN fr)
       IN IF f # {} THEN f
          ELSE UNION {LET x == Cell(e, e.stat, AsgAt(e.out, k))
                      IN Fail(IF IsNum(x) THEN "statistic-value" ELSE "missing-value-not-propagated", e.out.data[k] = x)
                      : k \in 1..Size(e.out)}

\* ---- metric values from means over the dimensions e.r
RECURSIVE WProd(_, _, _)
WProd(W, g, i) == IF i > Len(W) THEN 1 ELSE ValAt(W[i], g) * WProd(W, g, i + 1)
Elems(e, fr, o) == {o @@ r : r \in FrameAsgs(RangeOf(e.r), fr)}
Mean(e, s, E) ==
  LET val == TLCEval([g \in E |-> Cell(e, s, g)])
      C == IF e.skipna THEN {g \in E : IsNum(val[g])} ELSE E
  IN MeanOf(C, LAMBDA g : val[g], LAMBDA g : WProd(e.w, g, 1))

LnRatio(a, b) == Ln6(a) - Ln6(b)
Clip(x) == IF x < 0 THEN -x ELSE x
\* Symmetric extremal dependency index; hit and false alarm rates of 0 or 1 are
\* replaced by 1e-6 or 1 - 1e-6 (ln 1e-6 = -13.815511).
SediLogs(a, b) == \* <<ln(a/(a+b)), ln(b/(a+b))>> in millionths
  IF b = 0 THEN <<-1, -13815511>>
  ELSE IF a = 0 THEN <<-13815511, -1>>
  ELSE <<LnRatio(a, a + b), LnRatio(b, a + b)>>
JudgeSedi(o, tp, fp, fn, tn) ==
  IF ~IsNum(tp) \/ tp + fn = 0 \/ fp + tn = 0 THEN Fail("sedi-of-undefined-rates", o = NaN)
  ELSE LET h == SediLogs(tp, fn)
           f == SediLogs(fp, tn)
           num == f[1] - h[1] + h[2] - f[2]
           den == h[1] + f[1] + h[2] + f[2]
           clipped == tp = 0 \/ fn = 0 \/ fp = 0 \/ tn = 0
       IN Fail("sedi", IsNum(o) /\ Abs(o - ((num \div 100) * 1000) \div (den \div 100)) <= IF clipped THEN 12 ELSE 2)

JudgeValue(e, fr, o, obs) ==
  LET E == TLCEval(Elems(e, fr, o))
      m == e.metric
      T(s) == Mean(e, s, E)
  IN IF m \in Scores \cup {"SEDI"}
     THEN LET ttp == TLCEval(T("TP"))
              tp == ttp[1]  w == ttp[2]
              fp == TLCEval(T("FP")[1])  fn == TLCEval(T("FN")[1])  tn == TLCEval(T("TN")[1])
          IN IF w = 0 \/ ~IsNum(tp) THEN Fail("score-of-missing-not-missing", obs = NaN)
             ELSE IF m = "SEDI" THEN JudgeSedi(obs, tp, fp, fn, tn)
             ELSE LET q == Score(m, tp, fp, fn, tn) IN Fail("score", RatAgrees(obs, q[1], q[2], e.S, e.tol))
     ELSE IF m \in {"RMSE"}
     THEN LET x == T("SquaredError") IN Fail("root-of-mean", SqrtAgrees(obs, x[1], x[2], e.S, e.tol))
     ELSE IF m = "WindVectorRMSE"
     THEN LET x == T("WindSquaredError") IN Fail("root-of-mean-wind", SqrtAgrees(obs, x[1], x[2], e.S, e.tol))
     ELSE LET x == T(m) IN Fail("mean", RatAgrees(obs, x[1], x[2], e.S, e.tol))

JudgeMetric(e) ==
  IF ~e.ok THEN {"metric-raised"}
  ELSE LET fr == FrameOf(e.ins)
           keep == DOMAIN fr \ RangeOf(e.r)
           f == JudgeFrame(e.out, fr, keep)
       IN IF f # {} THEN f
          ELSE UNION {JudgeValue(e, fr, AsgAt(e.out, k), e.out.data[k]) : k \in 1..Size(e.out)}

\* ---- reliability: frequency of the event among forecasts in each bin
JudgeReliability(e) ==
  IF ~e.ok THEN {"metric-raised"}
  ELSE LET fr == FrameOf(e.ins)
           n == Len(e.edges) - 1
           ds == (DOMAIN fr \ RangeOf(e.r)) \cup {"bin"}
           fr2 == [d \in ds |-> IF d = "bin" THEN 1..n ELSE fr[d]]
           f == JudgeFrame(e.out, fr2, ds)
       IN IF f # {} THEN f
          ELSE Fail("bin-edges", e.lefts = SubSeq(e.edges, 1, n) /\ e.rights = SubSeq(e.edges, 2, n + 1))
            \cup UNION {
              LET o == AsgAt(e.out, k)
                  b == o["bin"]
                  E == Elems(e, fr, o)
                  p(g) == InBin(ValAt(e.ins[1], g), e.edges[b], e.edges[b + 1])
                  cell(s) == [g \in E |-> Table(s, p(g), Event(ValAt(e.ins[2], g)))]
                  tpc == TLCEval(cell("TP"))  fpc == TLCEval(cell("FP"))
                  C == IF e.skipna THEN {g \in E : IsNum(tpc[g])} ELSE E
                  tp == MeanOf(C, LAMBDA g : tpc[g], LAMBDA g : WProd(e.w, g, 1))
                  fp == MeanOf(C, LAMBDA g : fpc[g], LAMBDA g : WProd(e.w, g, 1))
              IN Fail("reliability", RatAgrees(e.out.data[k], tp[1], NAdd(tp[1], fp[1]), e.S, e.tol))
              : k \in 1..Size(e.out)}

\* ---- relative intensity: |(mean forecast + eps) / (mean target + eps) - 1|,
\* eps = 1e-6, means over the spatial dimensions (of unmasked points).
JudgeIntensity(e) ==
  IF ~e.ok THEN {"statistic-raised"}
  ELSE LET fr == FrameOf(<<e.ins[1], e.ins[2]>>)
           keep == DOMAIN fr \ RangeOf(e.r)
           f == JudgeFrame(e.out, fr, keep)
           msk == Len(e.ins) = 3
       IN IF f # {} THEN f
          ELSE (IF ~msk THEN {}
                ELSE JudgeFrame(e.mask, [d \in DimSet(e.ins[3]) \ RangeOf(e.r) |-> fr[d]], DimSet(e.ins[3]) \ RangeOf(e.r)))
            \cup UNION {
              LET o == AsgAt(e.out, k)
                  E == Elems(e, fr, o)
                  C == IF msk THEN {g \in E : ValAt(e.ins[3], g) = 1} ELSE E
                  n == Cardinality(C)
                  sp == NSum(C, LAMBDA g : ValAt(e.ins[1], g))
                  st == NSum(C, LAMBDA g : ValAt(e.ins[2], g))
              IN IF msk /\ n = 0 THEN Fail("intensity-of-nothing", e.out.data[k] = 0)
                                 \cup Fail("mask-of-nothing", ValAt(e.mask, o) = 0)
                 ELSE (IF msk THEN Fail("intensity-mask", ValAt(e.mask, o) = 1) ELSE {})
                  \cup Fail("relative-intensity",
                      IF ~IsNum(sp) \/ ~IsNum(st) THEN e.out.data[k] = NaN
                      ELSE RatAgrees(e.out.data[k], Abs(sp - st) * 1000000, st * 1000000 + n, e.S, e.tol))
              : k \in 1..Size(e.out)}

\* Variables scored: those present in both inputs, under their own name.
JudgeNames(e) == IF ~e.ok THEN {"statistic-raised"}
                 ELSE Fail("variables-scored", RangeOf(e.names_out) = RangeOf(e.names_p) \cap RangeOf(e.names_t)
                                              /\ Len(e.names_out) = Cardinality(RangeOf(e.names_out)))

Judge(e) ==
  (CASE e.op = "stat" -> JudgeStat(e)
    [] e.op = "metric" -> JudgeMetric(e)
    [] e.op = "reliability" -> JudgeReliability(e)
    [] e.op = "intensity" -> JudgeIntensity(e)
    [] e.op = "names" -> JudgeNames(e)
    [] e.op = "rejected" -> Fail("bad-request-accepted", ~e.ok))
  \cup (IF "unchanged" \in DOMAIN e THEN Fail("inputs-changed", e.unchanged) ELSE {})
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET b == Judge(Trace[l])
            IN IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson(<<l, SetToSeq(b)>>))
         /\ IF l = Len(Trace) THEN PrintT("DONE " \o ToJson(l)) ELSE TRUE
TSpec == TInit /\ [][TNext]_l
=============================================================================
