----------------------------- MODULE TraceInfer -----------------------------
(* Judges recorded analytic inference, linearisations and slice-wise          *)
(* application.                                                               *)
EXTENDS TTest, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

NU(e) == e.N
TolV == 2
Sc(e, x) == ScaleOf(MetricOf(e, x[1]).kind)

\* Degrees of freedom of each test.
Df(e) == IF e.method = "ewc" THEN Freqs(e.N, e.v0) ELSE e.N - 1

JudgeSe(e, kind, p, se) ==      \* se in 1/100
  IF ~Whole(p) THEN se = NaN
  ELSE IF ~Smooth(kind, p) THEN TRUE
  ELSE LET t == Influence(kind, p)
       IN IF ~Moderate(t) THEN TRUE
          ELSE CASE e.method = "iid" -> IsNum(se) /\ IidSe(t, se, InfTol(kind))
                 [] e.method = "ar2" -> (IF kind \in {"ratio", "rel"} THEN TRUE ELSE Ar2Se(t, se))
                 [] e.method = "ewc" -> IsNum(se) /\ (FreqsOpen(e.N, e.v0) \/ EwcSe(t, se, Freqs(e.N, e.v0), InfTol(kind)))

\* Interval: as far below as above, by the t quantile times the standard error
\* (both in 1/1000 here).
JudgeInterval(e, mean, se, lo, hi) ==
  IF ~IsNum(mean) \/ ~IsNum(se) THEN lo = NaN /\ hi = NaN
  ELSE LET i == CHOOSE k \in DOMAIN TAlpha : TAlpha[k] = e.alpha
           z == TTab[Df(e)][i]
           half == IF se > 60000 \/ z > 30000 THEN -1 ELSE (z * se) \div 1000
       IN /\ IsNum(lo) /\ IsNum(hi)
          /\ Abs((hi - mean) - (mean - lo)) <= 4 + Abs(mean) \div 100000
          /\ half >= 0 => Abs((hi - mean) - half) <= 4 + z \div 1000 + half \div 1000 + Abs(mean) \div 100000

\* p-value (10000ths): on the right side of every tabulated level.
JudgeP(e, mean, se, null, p) ==
  IF ~IsNum(mean) \/ ~IsNum(se) THEN p = NaN
  ELSE LET d == Abs(mean - null)
           slack == 3 + Abs(mean) \div 100000
       IN IF se = 0 THEN (d > slack + 30 => IsNum(p) /\ p <= 2)
          ELSE IF se > 60000 \/ d > 1000000 THEN TRUE
          ELSE IsNum(p) /\ p >= 0 /\ p <= 10000 /\
               \A k \in DOMAIN TAlpha :
                 LET z == TTab[Df(e)][k]
                 IN IF z > 30000 THEN TRUE
                    ELSE LET edge == (z * se) \div 1000 band == slack + z \div 1000 + 2 + edge \div 500
                         IN /\ (d > edge + band => p <= 10 * TAlpha[k] + 5)
                            /\ (d < edge - band => p >= 10 * TAlpha[k] - 5)

JudgeTest(e) ==
  IF ~e.ok THEN {"raised"}
  ELSE IF OutKeys(e.point) # Keys(e) THEN {"metrics-or-variables"}
  ELSE IF \E out \in {e.point, e.se, e.se1, e.lo, e.hi, e.p, e.sig, e.plo} : OutKeys(out) # Keys(e) \/ \E x \in Keys(e) : ~FrameOK(e, x, OutOf(out, x), {}) THEN {"result-frame"}
  ELSE UNION {
    LET m == MetricOf(e, x[1])
        at(out, g) == ValAt(OutOf(out, x), g)
    IN UNION {
      LET p == PartsAt(e, m, x[2], g)
          k == IF Sc(e, x) = 100 THEN 10 ELSE 1
          mean == at(e.point, g) se == at(e.se, g)
      IN Fail("point-estimate", Meets(mean, LET v == ValueAt(m.kind, p, Ones(e.N)) IN IF IsNum(v) THEN v * k ELSE v, TolV * k))
         \cup Fail("standard-error", JudgeSe(e, m.kind, p, at(e.se1, g)))
         \cup (IF e.method = "ewc" /\ FreqsOpen(e.N, e.v0) THEN {}
               ELSE Fail("confidence-interval", JudgeInterval(e, mean, se, at(e.lo, g), at(e.hi, g)))
                    \cup Fail("p-value", JudgeP(e, mean, se, e.null, at(e.p, g)))
                    \cup Fail("p-value-at-interval-end", IsNum(mean) /\ IsNum(se) /\ se > 20 /\ se < 60000 /\ Abs(mean) < 100000 * se => Abs(at(e.plo, g) - 10 * e.alpha) <= 10 + e.alpha \div 10)
                    \cup Fail("significance", IsNum(at(e.p, g)) => (IF at(e.p, g) < 10 * e.alpha - 1 THEN at(e.sig, g) = 1 ELSE IF at(e.p, g) > 10 * e.alpha + 1 THEN at(e.sig, g) = 0 ELSE TRUE)))
      : g \in AsgsOf(e, x)} : x \in Keys(e)}

---------------------------------------------------------------------------
\* The linearisation itself: values, and per-unit influences in 1/100.
JudgeLinear(e) ==
  IF ~e.ok THEN {"raised"}
  ELSE IF OutKeys(e.point) # Keys(e) \/ OutKeys(e.inf) # Keys(e) THEN {"metrics-or-variables"}
  ELSE IF \E x \in Keys(e) : ~FrameOK(e, x, OutOf(e.point, x), {}) \/ ~FrameOK(e, x, OutOf(e.inf, x), {"unit"}) THEN {"result-frame"}
  ELSE UNION {
    LET m == MetricOf(e, x[1])
    IN Fail("units-of-influences", LabelsOf(OutOf(e.inf, x), "unit") = [u \in 1..e.N |-> u])
       \cup UNION {
         LET p == PartsAt(e, m, x[2], g) k == IF Sc(e, x) = 100 THEN 10 ELSE 1
             got == [u \in 1..e.N |-> ValAt(OutOf(e.inf, x), g @@ ("unit" :> u))]
         IN Fail("point-estimate", Meets(ValAt(OutOf(e.point, x), g), LET v == ValueAt(m.kind, p, Ones(e.N)) IN IF IsNum(v) THEN v * k ELSE v, TolV * k))
            \cup (IF ~Whole(p) \/ ~Smooth(m.kind, p) THEN {}
                  ELSE LET t == Influence(m.kind, p) IN Fail("influence", \A u \in 1..e.N : IsNum(got[u]) /\ Abs(got[u] - t[u]) <= InfTol(m.kind) + Abs(t[u]) \div 100))
         : g \in AsgsOf(e, x)} : x \in Keys(e)}

---------------------------------------------------------------------------
\* Units that are not evenly spaced, and serially correlated errors.
JudgeUneven(e) == Fail("uneven-units-accepted", ~e.ok)
\* A baseline whose units are not those of the main forecast.
JudgeUnpaired(e) == Fail("unpaired-units-accepted", ~e.ok)

---------------------------------------------------------------------------
\* Applying a function slice by slice.
FunAt(e, a, g) ==      \* e.fun on leaf a (a list of arrays), at the remaining indices g
  CASE e.fun = "sum"  -> MapThenSumSet(LAMBDA z : ValAt(a[1], g @@ ("z" :> z)), LabelSet(a[1], "z"))
    [] e.fun = "mul"  -> ValAt(a[1], g) * ValAt(a[2], g)
    [] e.fun = "same" -> ValAt(a[1], g)
    [] e.fun = "new"  -> ValAt(a[1], [d \in DimSet(a[1]) |-> g[d]]) * g["w"]
JudgeLeaf(e, leaf) ==
  LET ds == (UNION {DimSet(leaf.ins[i]) : i \in DOMAIN leaf.ins} \ (IF e.fun = "sum" THEN {"z"} ELSE {})) \cup (IF e.fun = "new" THEN {"w"} ELSE {})
      lab == [d \in ds |-> IF d = "w" /\ e.fun = "new" THEN {1, 2} ELSE LET i == CHOOSE j \in DOMAIN leaf.ins : d \in DimSet(leaf.ins[j]) IN LabelSet(leaf.ins[i], d)]
  IN Fail("slices-assembled", WellFormed(leaf.out) /\ HoldsFn(leaf.out, ds, lab, LAMBDA g : FunAt(e, leaf.ins, g)))
JudgeSlices(e) ==
  IF ~e.valid THEN Fail("bad-slices-accepted", ~e.ok)
  ELSE IF ~e.ok THEN {"raised"}
  ELSE UNION {JudgeLeaf(e, e.leaves[i]) : i \in DOMAIN e.leaves}
       \cup Fail("one-slice-per-index", e.calls = e.slices /\ e.single)

Judge(e) == CASE e.op = "test" -> JudgeTest(e)
              [] e.op = "linear" -> JudgeLinear(e)
              [] e.op = "uneven" -> JudgeUneven(e)
              [] e.op = "unpaired" -> JudgeUnpaired(e)
              [] e.op = "slices" -> JudgeSlices(e)

TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET b == Judge(Trace[l])
            IN IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson(<<l, SetToSeq(b)>>))
         /\ IF l = Len(Trace) THEN PrintT("DONE " \o ToJson(l)) ELSE TRUE
TSpec == TInit /\ [][TNext]_l
=============================================================================
