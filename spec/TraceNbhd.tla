------------------------------ MODULE TraceNbhd ------------------------------
(* Judges recorded neighbourhood statistics, fractions skill scores and       *)
(* neighbourhood probabilities.                                               *)
EXTENDS Nbhd, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

SizeDim == "neighborhood_size"
Ins(e) == <<e.p, e.t>>
InDims(e) == DimSet(e.p) \cup DimSet(e.t)
FrameOf(e) == TLCEval([d \in InDims(e) |->
  IF d \in DimSet(e.p) THEN LabelSet(e.p, d) ELSE LabelSet(e.t, d)])
\* the size dimension is there exactly when several sizes were asked for
OutFrame(e, fr) == IF e.multi THEN fr @@ (SizeDim :> RangeOf(e.sizes)) ELSE fr
NOf(e, o) == IF e.multi THEN o[SizeDim] ELSE e.sizes[1]
On(o, a) == [d \in DimSet(a) |-> o[d]]

JudgeFrame(out, fr) ==
  IF ~WellFormed(out) THEN {"result-malformed"}
  ELSE Fail("result-dimensions", DimSet(out) = DOMAIN fr)
       \cup (IF DimSet(out) = DOMAIN fr
             THEN Fail("result-labels", \A d \in DOMAIN fr : LabelSet(out, d) = fr[d])
             ELSE {})

Stat(e, s, o) ==
  LET n == NOf(e, o)
  IN FracStat(s, Count(e.p, On(o, e.p), n, e.wrap), Count(e.t, On(o, e.t), n, e.wrap))
Valid(e, o) ==
  e.mask = <<>> \/ Usable(e.mask[1], On(o, e.mask[1]), NOf(e, o), e.wrap)
Pow4(n) == n * n * n * n

\* e.r = <<>>: the statistic itself.
JudgeFrac(e) ==
  IF ~e.ok THEN {"statistic-raised"}
  ELSE LET fr == OutFrame(e, FrameOf(e))
           f == JudgeFrame(e.out, fr)
       IN IF f # {} THEN f
          ELSE UNION {LET o == AsgAt(e.out, k)
                          x == Stat(e, e.stat, o)
                      IN Fail("fraction-statistic", RatAgrees(e.out.data[k], x, Pow4(NOf(e, o)), e.S, e.tol))
                      : k \in 1..Size(e.out)}
            \cup (IF e.mask = <<>> THEN Fail("mask-invented", e.outmask = <<>>)
                  ELSE IF e.outmask = <<>> THEN {"mask-lost"}
                  ELSE LET m == e.outmask[1]
                       IN IF ~WellFormed(m) \/ ~(DimSet(m) \subseteq DOMAIN fr) THEN {"mask-malformed"}
                          ELSE UNION {LET o == AsgAt(e.out, k)
                                      IN Fail("mask-of-window", (ValAt(m, o) = 1) = Valid(e, o)) : k \in 1..Size(e.out)})

RECURSIVE WProd(_, _, _)
WProd(W, g, i) == IF i > Len(W) THEN 1 ELSE ValAt(W[i], g) * WProd(W, g, i + 1)
JudgeSkill(e) ==
  IF ~e.ok THEN {"metric-raised"}
  ELSE LET fr == FrameOf(e)
           keep == OutFrame(e, [d \in DOMAIN fr \ RangeOf(e.r) |-> fr[d]])
           f == JudgeFrame(e.out, keep)
       IN IF f # {} THEN f
          ELSE UNION {
            LET o == AsgAt(e.out, k)
                E0 == {o @@ r : r \in FrameAsgs(RangeOf(e.r), fr)}
                E == TLCEval(IF e.masked THEN {g \in E0 : Valid(e, g)} ELSE E0)
                kp == TLCEval([g \in E |-> Count(e.p, On(g, e.p), NOf(e, g), e.wrap)])
                kt == TLCEval([g \in E |-> Count(e.t, On(g, e.t), NOf(e, g), e.wrap)])
                Sm(s) == MeanOf(E, LAMBDA g : FracStat(s, kp[g], kt[g]), LAMBDA g : WProd(e.w, g, 1))[1]
                q == Skill(Sm("SquaredFractionsError"), Sm("SquaredPredictionFraction"), Sm("SquaredTargetFraction"))
                obs == e.out.data[k]
            IN Fail("fractions-skill", IF q[2] = 0 THEN obs = NaN ELSE RatAgrees(obs, q[1], q[2], e.S, e.tol))
            : k \in 1..Size(e.out)}

\* Probability of exceeding a threshold (strictly) in the neighbourhood.
ThrDim == "thr"
JudgeProb(e) ==
  IF ~e.ok THEN {"interpolation-raised"}
  ELSE LET fr == [d \in DimSet(e.p) |-> LabelSet(e.p, d)] @@ (ThrDim :> RangeOf(e.ths)) @@ ("smoothing_neighborhood" :> RangeOf(e.sizes))
           f == JudgeFrame(e.out, fr)
       IN IF f # {} THEN f
          ELSE UNION {
            LET o == AsgAt(e.out, k)
                n == o["smoothing_neighborhood"]
                u == o[ThrDim]
                x == NSum(CellsAt(e.p, On(o, e.p), n, e.wrap), LAMBDA c : Above(ValAt(e.p, c), u))
            IN Fail("neighbourhood-probability", RatAgrees(e.out.data[k], x, n * n, e.S, e.tol))
            : k \in 1..Size(e.out)}

Judge(e) ==
  (CASE e.op = "frac" -> JudgeFrac(e)
    [] e.op = "fss" -> JudgeSkill(e)
    [] e.op = "prob" -> JudgeProb(e)
    [] e.op = "rejected" -> Fail("even-window-accepted", ~e.ok))
  \cup (IF "unchanged" \in DOMAIN e THEN Fail("inputs-changed", e.unchanged) ELSE {})
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET b == Judge(Trace[l])
            IN IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson(<<l, SetToSeq(b)>>))
         /\ IF l = Len(Trace) THEN PrintT("DONE " \o ToJson(l)) ELSE TRUE
TSpec == TInit /\ [][TNext]_l
=============================================================================
