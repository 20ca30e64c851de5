------------------------------ MODULE TraceEns ------------------------------
(* Judges recorded ensemble scores.                                           *)
EXTENDS Ens, LArr, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

RECURSIVE WProd(_, _, _)
WProd(W, g, i) == IF i > Len(W) THEN 1 ELSE ValAt(W[i], g) * WProd(W, g, i + 1)
NumLabels(a) == IF "number" \in DimSet(a) THEN LabelsOf(a, "number") ELSE <<>>
Members(a, g) == IF "number" \in DimSet(a)
                 THEN LET ls == LabelsOf(a, "number") IN [i \in DOMAIN ls |-> ValAt(a, g @@ [number |-> ls[i]])]
                 ELSE <<ValAt(a, g)>>
ThrSeq(a, g) == LET ls == LabelsOf(a, "thr") IN [i \in DOMAIN ls |-> ValAt(a, g @@ [thr |-> ls[i]])]
Tens(e) == "number" \in DimSet(e.t)
\* A number of units that every fraction of this event can be expressed in.
Unit(e) ==
  LET n == MaxI(1, Len(NumLabels(e.p)))  m == MaxI(1, Len(NumLabels(e.t)))
  IN IF e.skipna THEN 5184
     ELSE n * n * MaxI(1, n - 1) * m * m * (IF Tens(e) THEN MaxI(1, m - 1) ELSE 1)
Exceeds(a, t, th) == IF ~IsNum(a) \/ ~IsNum(t) \/ ~IsNum(th) THEN NaN ELSE B01(Abs(a - t) > th)
\* The fraction of statistic s at element g.
Frac(e, s, g) ==
  LET x == Members(e.p, g)
      y == Members(e.t, g)
  IN CASE s = "CRPSSkill" -> Skill(x, y, e.skipna)
       [] s = "CRPSSpread" -> Spread(x, e.fair, e.skipna)
       [] s = "CRPSTargetSpread" -> Spread(y, e.fair, e.skipna)
       [] s = "EnsembleVariance" -> Variance(x, e.skipna)
       [] s = "UnbiasedMeanSq" -> UnbiasedMeanSq(x, y, Tens(e), e.skipna)
       [] s = "RPS" -> Rps(x, y, ThrSeq(e.th[1], g), ThrSeq(e.th[2], g), Tens(e), e.fair, e.incl, e.skipna)
       [] s = "Wasserstein" -> Wasserstein(x, y)
       [] s = "EnsembleErrorExceedance" -> MemberMean(x, LAMBDA a : Exceeds(a, y[1], ValAt(e.th[1], g)), TRUE)
       [] s = "EachError" -> MemberMean(x, LAMBDA a : NSub(a, y[1]), e.skipna)
       [] s = "EachAbsoluteError" -> MemberMean(x, LAMBDA a : LET d == NSub(a, y[1]) IN IF IsNum(d) THEN Abs(d) ELSE NaN, e.skipna)
       [] s = "EachSquaredError" -> MemberMean(x, LAMBDA a : LET d == NSub(a, y[1]) IN NMul(d, d), e.skipna)
       [] s = "RankHistogram" -> IF ~Usable(x, FALSE) \/ ~IsNum(y[1]) THEN Undef
                                 ELSE <<B01(RankOf(x, y[1]) = g["rank"]), 1>>
Units(f, u) == IF f[2] = 0 THEN NaN ELSE f[1] * (u \div f[2])
Rank(e) == 0..Len(NumLabels(e.p))
\* Dimensions and labels of a statistic: those of the arrays it is made of,
\* without the ensemble.
Uses(e, s) == CASE s \in {"CRPSSpread", "EnsembleVariance"} -> <<e.p>>
                [] s = "CRPSTargetSpread" -> <<e.t>>
                [] s = "RPS" -> <<e.p, e.t>> \o e.th
                [] s = "EnsembleErrorExceedance" -> <<e.p, e.t>> \o e.th
                [] OTHER -> <<e.p, e.t>>
FrameOf(e, s) ==
  LET ins == Uses(e, s)
      ds == (UNION {DimSet(ins[i]) : i \in DOMAIN ins}) \ (IF s = "RPS" THEN {"number", "thr"} ELSE {"number"})
      fr == [d \in ds |-> LET has == {i \in DOMAIN ins : d \in DimSet(ins[i])}
                          IN {v \in LabelSet(ins[CHOOSE i \in has : TRUE], d) : \A i \in has : v \in LabelSet(ins[i], d)}]
  IN IF s = "RankHistogram" THEN fr @@ [rank |-> Rank(e)] ELSE fr
JudgeFrame(out, fr, ds) ==
  IF ~WellFormed(out) THEN {"result-malformed"}
  ELSE Fail("result-dimensions", DimSet(out) = ds)
       \cup (IF DimSet(out) = ds
             THEN Fail("result-labels", \A d \in ds : LabelSet(out, d) = fr[d])
             ELSE {})
\* Estimates that need two members.
SpreadSize(e, s) == IF s = "CRPSSpread" THEN Len(NumLabels(e.p)) ELSE Len(NumLabels(e.t))
TooSmall(e, s) == s \in {"CRPSSpread", "CRPSTargetSpread"} /\ SpreadSize(e, s) < 2 /\ ~e.skipna
SpreadMembers(e, s, g) == IF s = "CRPSSpread" THEN Members(e.p, g) ELSE Members(e.t, g)
JudgeStat(e) ==
  LET s == e.stat
  IN IF ~e.ok THEN Fail("statistic-raised", TooSmall(e, s) \/ (e.sort /\ e.skipna))
     ELSE LET fr == TLCEval(FrameOf(e, s))
              f == JudgeFrame(e.out, fr, DOMAIN fr)
          IN IF f # {} THEN f
             ELSE UNION {
                LET g == AsgAt(e.out, k)
                    x == Frac(e, s, g)
                    o == e.out.data[k]
                    \* A plain spread of a single member may be undefined; the
                    \* exceedance rate has no policy for missing members.
                    mayMiss == \/ s \in {"CRPSSpread", "CRPSTargetSpread"} /\ Len(Good(SpreadMembers(e, s, g))) < 2
                               \/ s = "EnsembleErrorExceedance" /\ ~Usable(Members(e.p, g), FALSE)
                IN Fail(IF x[2] = 0 THEN "undefined-score-has-a-value" ELSE "score",
                        RatAgrees(o, x[1], x[2], e.S, e.tol) \/ (mayMiss /\ o = NaN))
                : k \in 1..Size(e.out)}

Elems(e, fr, o) == {o @@ r : r \in FrameAsgs(RangeOf(e.r), fr)}
MeanU(e, s, E) == \* <<weighted sum in units, weight>>
  LET u == Unit(e)
      val == TLCEval([g \in E |-> Units(Frac(e, s, g), u)])
      C == IF e.agg_skipna THEN {g \in E : IsNum(val[g])} ELSE E
  IN MeanOf(C, LAMBDA g : val[g], LAMBDA g : WProd(e.w, g, 1))
\* a/wa - b/(2 wb) - ... as a fraction
Comb(a, b) == IF ~IsNum(a[1]) \/ ~IsNum(b[1]) \/ a[2] = 0 \/ b[2] = 0 THEN <<NaN, 1>>
              ELSE <<2 * a[1] * b[2] - b[1] * a[2], 2 * a[2] * b[2]>>
\* Requires equal weights of all parts or small ones; reduces to <<num, w>>.
Crps(a, b) == IF a[2] = b[2] /\ IsNum(a[1]) /\ IsNum(b[1]) THEN <<2 * a[1] - b[1], 2 * a[2]>> ELSE Comb(a, b)
RatU(o, q, u, S, tol) == IF ~IsNum(q[1]) \/ q[2] = 0 THEN o = NaN ELSE RatAgrees(o, q[1], q[2] * u, S, tol)
\* Square roots: a negative or zero mean may give missing.
RootU(o, q, u, S, tol) ==
  IF ~IsNum(q[1]) \/ q[2] = 0 \/ q[1] < 0 THEN o = NaN
  ELSE IF q[1] = 0 THEN o = NaN \/ (IsNum(o) /\ Abs(o) <= tol)
  ELSE SqrtAgrees(o, q[1], q[2] * u, S, tol)
JudgeValue(e, fr, o, obs) ==
  LET E == TLCEval(Elems(e, fr, o))
      u == Unit(e)
      M(s) == MeanU(e, s, E)
      m == e.metric
  IN CASE m = "CRPSEnsemble" -> Fail("crps", RatU(obs, Crps(M("CRPSSkill"), M("CRPSSpread")), u, e.S, e.tol))
       [] m = "CRPSEnsembleDistance" ->
            LET a == M("CRPSSkill")  b == M("CRPSSpread")  c == M("CRPSTargetSpread")
                ok == IsNum(a[1]) /\ IsNum(b[1]) /\ IsNum(c[1]) /\ a[2] # 0 /\ b[2] # 0 /\ c[2] # 0
            IN IF ~ok THEN Fail("crps-distance-of-undefined", obs = NaN)
               ELSE IF a[2] = b[2] /\ b[2] = c[2]
               THEN Fail("crps-distance", RatU(obs, <<2 * a[1] - b[1] - c[1], 2 * a[2]>>, u, e.S, e.tol))
               ELSE \* each mean over its own elements: compare the three logged roundings
                    LET third(q) == (q[1] * 16) \div q[2]
                        x == 2 * third(a) - third(b) - third(c)
                    IN Fail("crps-distance", IsNum(obs) /\ Abs(obs - ((x * (e.S \div 32)) \div u)) <= e.tol + 1 + (4 * (e.S \div 32)) \div u)
       [] m = "UnbiasedEnsembleMeanRMSE" -> Fail("unbiased-rmse", RootU(obs, M("UnbiasedMeanSq"), u, e.S, e.tol))
       [] m = "EnsembleRootMeanVariance" -> Fail("root-mean-variance", RootU(obs, M("EnsembleVariance"), u, e.S, e.tol))
       [] m = "EachRMSE" -> Fail("member-rmse", RootU(obs, M("EachSquaredError"), u, e.S, e.tol))
       [] m = "UnbiasedSpreadSkillRatio" ->
            LET v == M("EnsembleVariance")  q == M("UnbiasedMeanSq")
            IN IF ~IsNum(v[1]) \/ ~IsNum(q[1]) \/ v[2] = 0 \/ q[2] = 0 THEN Fail("ratio-of-undefined", obs = NaN)
               ELSE IF q[1] = 0 \/ v[2] # q[2] THEN {}
               ELSE IF v[1] = 0 THEN Fail("spread-skill-ratio", obs \in {0, NaN})
               ELSE IF q[1] < 0 THEN Fail("spread-skill-ratio", obs = NaN)
               ELSE Fail("spread-skill-ratio", SqrtAgrees(obs, v[1], q[1], e.S, e.tol) \/ v[1] \div q[1] > 900)
       [] OTHER -> Fail("mean-score", RatU(obs, M(m), u, e.S, e.tol))
FrameStat(m) == CASE m \in {"CRPSEnsemble", "CRPSEnsembleDistance"} -> "CRPSSkill"
                  [] m = "EnsembleRootMeanVariance" -> "EnsembleVariance"
                  [] m \in {"UnbiasedEnsembleMeanRMSE", "UnbiasedSpreadSkillRatio"} -> "UnbiasedMeanSq"
                  [] m = "EachRMSE" -> "EachSquaredError"
                  [] OTHER -> m
JudgeMetric(e) ==
  LET small == (e.metric \in {"CRPSEnsemble", "CRPSEnsembleDistance"} /\ TooSmall(e, "CRPSSpread"))
               \/ (e.metric = "CRPSEnsembleDistance" /\ TooSmall(e, "CRPSTargetSpread"))
               \/ TooSmall(e, e.metric)
  IN IF ~e.ok THEN Fail("metric-raised", small)
     ELSE LET fr == TLCEval(FrameOf(e, FrameStat(e.metric)))
              keep == DOMAIN fr \ RangeOf(e.r)
              f == JudgeFrame(e.out, fr, keep)
          IN IF f # {} THEN f
             ELSE IF small /\ e.fair THEN Fail("undefined-score-has-a-value", RangeOf(e.out.data) \subseteq {NaN})
             ELSE UNION {JudgeValue(e, fr, AsgAt(e.out, k), e.out.data[k]) : k \in 1..Size(e.out)}

\* ---- relative economic value.  Probabilities and thresholds are logged in
\* 1/e.one; e.costs[i] is <<a, b>> for the ratio a/b.
Thresholds(e) == {0, e.one} \cup RangeOf(e.thresholds)
\* The offered threshold to use (exactly, or the nearest one).
Chosen(e, v) == IF v \in Thresholds(e) THEN v
                ELSE CHOOSE h \in Thresholds(e) : \A k \in Thresholds(e) : Abs(h - v) <= Abs(k - v)
Bad(e, E) == \E g \in E : ValAt(e.p, g) = NaN \/ ValAt(e.t, g) = NaN
JudgeRev(e) ==
  LET opt == e.opt # <<>>
      fr0 == [d \in DimSet(e.p) \cup DimSet(e.t) |-> IF d \in DimSet(e.p) THEN LabelSet(e.p, d) ELSE LabelSet(e.t, d)]
      missing == opt /\ ~e.nearest /\ \E i \in DOMAIN e.opt[1].data : e.opt[1].data[i] \notin Thresholds(e)
  IN IF missing THEN Fail("unknown-threshold-accepted", ~e.ok)
     ELSE IF ~e.ok THEN {"metric-raised"}
     ELSE LET kept == DOMAIN fr0 \ RangeOf(e.r)
              ds == kept \cup (IF opt THEN {"cost"} ELSE {"cost", "threshold"})
              fr == [d \in ds |-> CASE d = "cost" -> DOMAIN e.costs [] d = "threshold" -> Thresholds(e) [] OTHER -> fr0[d]]
              f == JudgeFrame(e.out, fr, ds)
          IN IF f # {} THEN f
             ELSE UNION {
               LET o == AsgAt(e.out, k)
                   E0 == {o @@ r : r \in FrameAsgs(RangeOf(e.r), fr0)}
                   ok(g) == ValAt(e.p, g) # NaN /\ ValAt(e.t, g) # NaN
                   E == TLCEval(IF e.agg_skipna THEN {g \in E0 : ok(g)} ELSE E0)
                   wt(g) == WProd(e.w, g, 1)
                   w == SumOver(E, wt)
                   h == IF opt THEN Chosen(e, ValAt(e.opt[1], o)) ELSE o["threshold"]
                   warn(g) == IF h = 0 THEN TRUE ELSE IF h = e.one THEN FALSE ELSE ValAt(e.p, g) > h
                   S(c(_)) == SumOver({g \in E : c(g)}, wt)
                   ev(g) == ValAt(e.t, g) = 1
                   tp == S(LAMBDA g : ev(g) /\ warn(g))
                   fp == S(LAMBDA g : ~ev(g) /\ warn(g))
                   fn == S(LAMBDA g : ev(g) /\ ~warn(g))
                   v == Rev(tp, fp, fn, w, e.costs[o["cost"]][1], e.costs[o["cost"]][2])
               IN IF w = 0 \/ \E g \in E : ~ok(g) THEN Fail("value-of-missing-not-missing", e.out.data[k] = NaN)
                  ELSE IF v[2] = 0 THEN {}
                  ELSE Fail("economic-value", RatAgrees(e.out.data[k], v[1], v[2], e.S, e.tol))
               : k \in 1..Size(e.out)}

\* ---- ranked probability score of distribution functions given in quarters
JudgeCdfScore(e) ==
  IF ~e.ok THEN {"statistic-raised"}
  ELSE LET ds == (DimSet(e.p) \cup DimSet(e.t)) \ {"thr"}
           fr == [d \in ds |-> IF d \in DimSet(e.p) THEN LabelSet(e.p, d) ELSE LabelSet(e.t, d)]
           f == JudgeFrame(e.out, fr, ds)
       IN IF f # {} THEN f
          ELSE UNION {
            LET g == AsgAt(e.out, k)
                ls == LabelsOf(e.p, "thr")
                d == [i \in DOMAIN ls |-> NSub(ValAt(e.p, g @@ [thr |-> ls[i]]), ValAt(e.t, g @@ [thr |-> ls[i]]))]
                all == \A i \in DOMAIN d : IsNum(d[i])
                none == \A i \in DOMAIN d : ~IsNum(d[i])
            IN IF all THEN Fail("score", e.out.data[k] = Sum1(d, LAMBDA a : a * a))
               ELSE IF none THEN Fail("undefined-score-has-a-value", e.out.data[k] = NaN)
               \* some bins missing: the sum of those that are known
               ELSE Fail("score-with-missing-bins", e.out.data[k] = Sum1(SelectSeq(d, IsNum), LAMBDA a : a * a))
            : k \in 1..Size(e.out)}

Judge(e) ==
  (CASE e.op = "ens" -> JudgeStat(e)
    [] e.op = "ensmetric" -> JudgeMetric(e)
    [] e.op = "rev" -> JudgeRev(e)
    [] e.op = "cdfscore" -> JudgeCdfScore(e)
    [] e.op = "rejected" -> Fail("bad-request-accepted", ~e.ok))
  \cup (IF "unchanged" \in DOMAIN e THEN Fail("inputs-changed", e.unchanged) ELSE {})
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET b == Judge(Trace[l])
            IN IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson(<<l, SetToSeq(b)>>))
         /\ IF l = Len(Trace) THEN PrintT("DONE " \o ToJson(l)) ELSE TRUE
TSpec == TInit /\ [][TNext]_l
=============================================================================
