---- MODULE TraceGridArea ----
EXTENDS GridArea, LArr, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
WS == 1048576          \* scale of normalised weights and means
\* Error of an observed area: rounding of table and log; single precision
\* coordinates are good to about 1e-7.
TolArea(e) == IF e.single THEN 300 ELSE 4
TolW(e) == IF e.single THEN 20 ELSE 2

JudgeWeights(e) ==
  IF ~Strict(e.axis) THEN Fail("unordered-latitudes-accepted", ~e.ok)
  ELSE IF ~e.ok THEN {"weights-raised"}
  ELSE
   LET w == e.res
   IN IF ~WellFormed(w) THEN {"weights-malformed"}
      ELSE IF ~e.haslat
      THEN Fail("weights-without-latitude-not-one", DimSet(w) \subseteq {} /\ w.data = <<WS>>)
      ELSE Fail("weights-on-other-dimensions", DimSet(w) = {"lat"})
       \cup (IF DimSet(w) # {"lat"} THEN {} ELSE
        LET x == LabelsOf(w, "lat")
            n == Len(e.axis)
            b == OrderedBands(e.axis)
            \* Observed weight of each latitude (the result may be in any order).
            same == x = e.axis
            o(i) == IF same THEN w.data[i] ELSE ValAt(w, [lat |-> e.axis[i]])
            big == Max(RangeOf(b))
            r == CHOOSE i \in 1..n : b[i] = big
        IN IF RangeOf(x) # RangeOf(e.axis) THEN {"latitudes-lost-or-invented"}
           ELSE Fail("weights-not-positive", \A i \in 1..n : IsNum(o(i)) /\ o(i) >= 0)
                \cup (IF \E i \in 1..n : ~IsNum(o(i)) \/ o(i) < 0 \/ o(i) >= 1073000000 THEN {"weights-out-of-range"}
                      ELSE IF e.normalized
                      THEN Fail("mean-weight-not-one", Abs(SumOver(1..n, LAMBDA i : o(i)) - n * WS) <= n * TolW(e))
                           \cup Fail("weights-not-proportional-to-area",
                                \A i \in 1..n : WRatioNear(o(i), o(r), b[i], b[r], TolW(e), TolArea(e)))
                      ELSE Fail("weights-not-the-areas", \A i \in 1..n : Abs(o(i) - b[i]) <= TolArea(e))))

\* Mean of c on the product of a set of latitudes and a set of longitudes (0
\* elsewhere).
JudgeMean(e) ==
  IF ~e.ok THEN {"mean-raised"}
  ELSE LET n == Len(e.axis)
           b == OrderedBands(e.axis)
           inb == SumOver({i \in 1..n : e.axis[i] \in RangeOf(e.band)}, LAMBDA i : b[i])
           tot == SeqSum(b)
       IN UNION {LET m == e.means[j]
                 IN IF ~IsNum(m) \/ m < 0 THEN {"mean-undefined"}
                    ELSE IF e.band = <<>> \/ e.nin = 0 \/ e.c = 0 THEN Fail("area-mean-of-zero", m = 0)
                    ELSE IF RangeOf(e.band) = RangeOf(e.axis) /\ e.nin = e.nlon
                    THEN Fail("area-mean-of-constant", Abs(m - e.c * WS) <= TolW(e))
                    ELSE Fail("area-mean", WRatioNear(m * e.nlon, WS * e.nin * e.c, inb, tot, e.nlon * TolW(e), TolArea(e)))
                 : j \in DOMAIN e.means}
            \cup Fail("means-missing", Len(e.means) = e.nmeans)
Judge(e) ==
  (CASE e.op = "weights" -> JudgeWeights(e)
    [] e.op = "mean" -> JudgeMean(e))
  \cup (IF "unchanged" \in DOMAIN e THEN Fail("statistic-changed", e.unchanged) ELSE {})
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET b == Judge(Trace[l])
            IN IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson(<<l, SetToSeq(b)>>))
         /\ IF l = Len(Trace) THEN PrintT("DONE " \o ToJson(l)) ELSE TRUE
TSpec == TInit /\ [][TNext]_l
====
