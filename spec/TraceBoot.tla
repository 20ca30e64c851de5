------------------------------ MODULE TraceBoot ------------------------------
(* Judges recorded bootstrap runs: each replicate must be the metric of an    *)
(* admissible resample of whole groups of units, and the summaries must be    *)
(* those of the replicates.                                                   *)
EXTENDS Infer, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Rep == "bootstrap_replicate"
\* All ways to draw g groups g times.
Draws == [g \in 1..6 |-> {c \in [1..g -> 0..g] : FoldFunctionOnSet(LAMBDA a, b : a + b, 0, c, 1..g) = g}]
NU(e) == Len(e.group)
NG(e) == Cardinality(RangeOf(e.group))
Mults(e) == {[u \in 1..NU(e) |-> m[e.group[u]]] : m \in Draws[NG(e)]}

Tol == 2
\* A missing unit spoils every resample it is drawn into; whether one that leaves
\* it out counts is left open.
Bare(parts, c) == [i \in DOMAIN parts |-> [n |-> [u \in DOMAIN parts[i].n |-> IF c[u] = 0 /\ ~IsNum(parts[i].n[u]) THEN 0 ELSE parts[i].n[u]], d |-> parts[i].d]]
Gaps(parts) == \E i \in DOMAIN parts : \E u \in DOMAIN parts[i].n : ~IsNum(parts[i].n[u])
RepValue(it, c) == ValueAt(it.kind, Bare(it.parts, c), c)
Explains(it, obs, v) == Meets(obs, v, Tol) \/ (obs = NaN /\ Gaps(it.parts))
\* One item per metric, variable and position: its observed replicates.
ItemsOf(e, x) ==
  LET m == MetricOf(e, x[1]) a == OutOf(e.reps, x)
  IN {[x |-> x, g |-> g, kind |-> m.kind, parts |-> PartsAt(e, m, x[2], g), obs |-> [r \in 1..e.R |-> ValAt(a, g @@ (Rep :> r))]] : g \in AsgsOf(e, x)}
Items(e) == UNION {ItemsOf(e, x) : x \in Keys(e)}

\* Plain resampling: one multiset explains everything in a replicate.
JudgeJoint(e) ==
  LET its == SetToSeq(Items(e))
      ms == SetToSeq(Mults(e))
      tab == [k \in DOMAIN ms |-> [i \in DOMAIN its |-> RepValue(its[i], ms[k])]]
  IN Fail("no-resample-explains-replicate",
          \A r \in 1..e.R : \E k \in DOMAIN ms : \A i \in DOMAIN its : Explains(its[i], its[i].obs[r], tab[k][i]))

\* Block resampling may draw separately for each value.
JudgeEach(e) ==
  LET its == SetToSeq(Items(e))
      ms == Mults(e)
      whole == ~e.auto /\ e.len >= 100000000       \* blocks never end
  IN UNION {LET vals == IF whole THEN {ValueAt(its[i].kind, its[i].parts, Ones(NU(e)))}
                        ELSE {RepValue(its[i], c) : c \in ms}
            IN Fail(IF whole THEN "unbroken-series-not-whole" ELSE "no-resample-explains-replicate",
                    \A r \in 1..e.R : \E v \in vals : Explains(its[i], its[i].obs[r], v))
            : i \in DOMAIN its}

JudgePoint(e) ==
  UNION {LET a == OutOf(e.point, x) m == MetricOf(e, x[1])
         IN IF ~FrameOK(e, x, a, {}) THEN {"point-estimate-frame"}
            ELSE Fail("point-estimate", \A g \in AsgsOf(e, x) : Meets(ValAt(a, g), ValueAt(m.kind, PartsAt(e, m, x[2], g), Ones(NU(e))), Tol))
         : x \in Keys(e)}

---------------------------------------------------------------------------
\* Summaries of the replicates at one position.
Have(obs) == SortSeq(SelectSeq(obs, IsNum), <)
\* Linear interpolation between order statistics at a quantile of q/2000.
QNear(s, q, got) ==
  LET h == (Len(s) - 1) * q  k == h \div 2000  f == h % 2000
      v == IF k + 2 > Len(s) THEN 2000 * s[Len(s)] ELSE s[k + 1] * (2000 - f) + s[k + 2] * f
  IN IsNum(got) /\ Abs(got * 2000 - v) <= 4000
\* Empirical distribution at x, in 10000ths (piecewise linear).
Cdf(s, x) ==
  LET k == Cardinality({i \in DOMAIN s : s[i] < x}) n == Len(s)
  IN IF k = 0 THEN 0 ELSE IF k = n THEN 10000
     ELSE (10000 * (k - 1)) \div (n - 1) + ((10000 * (x - s[k])) \div (s[k + 1] - s[k])) \div (n - 1)
JudgeStats(e, x, g) ==
  LET obs == [r \in 1..e.R |-> ValAt(OutOf(e.reps, x), g @@ (Rep :> r))]
      s == Have(obs) n == Len(s)
      at(out) == ValAt(OutOf(out, x), g)
      se == at(e.se) p == at(e.p)
  IN IF n = 0 THEN Fail("summary-of-nothing", se = NaN /\ at(e.lo) = NaN /\ at(e.hi) = NaN /\ p = NaN)
     ELSE IF n = 1 \/ \E i \in DOMAIN s : Abs(s[i]) > 100000 THEN {}
     ELSE Fail("confidence-interval", QNear(s, e.alpha, at(e.lo)) /\ QNear(s, 2000 - e.alpha, at(e.hi)))
          \cup (LET mean == SeqSum(s) \div n
                    dev == [i \in DOMAIN s |-> (s[i] - mean) \div 10]
                    ss == SeqSum([i \in DOMAIN s |-> dev[i] * dev[i]])
                    ab == SeqSum([i \in DOMAIN s |-> Abs(dev[i])])
                    got == se \div 10
                IN Fail("standard-error", IsNum(se) /\ Abs(got) < 20000 /\ Abs(ss - (n - 1) * got * got) <= 4 * ab + 4 * n + 4 * n * Abs(got)))
          \cup (LET a == Cdf(s, e.null - 2) - 2 * 10 b == Cdf(s, e.null + 2) + 2 * 10
                    lower == 2 * MinI(a, 10000 - b) upper == 2 * MinI(b, 10000 - a)
                    \* replicates tied with the null: the distribution jumps there
                    lt == at(e.below) eq == at(e.tied)
                    top == (10000 * (lt + eq - 1)) \div (n - 1) bot == (10000 * lt) \div (n - 1)
                    both == MinI(10000, 2 * MinI(top, 10000 - bot))
                IN IF eq = 0 THEN Fail("p-value", IsNum(p) /\ p >= lower - 2 /\ p <= upper + 2)
                   ELSE Fail("p-value-tied", IsNum(p) /\ Abs(p - both) <= 5))
          \cup Fail("significance", IsNum(p) => (IF p < 5 * e.alphasig - 1 THEN at(e.sig) = 1 ELSE IF p > 5 * e.alphasig + 1 THEN at(e.sig) = 0 ELSE TRUE))

JudgeBoot(e) ==
  IF ~e.ok THEN {"raised"}
  ELSE IF OutKeys(e.reps) # Keys(e) \/ OutKeys(e.point) # Keys(e) THEN {"metrics-or-variables"}
  ELSE IF \E x \in Keys(e) : ~FrameOK(e, x, OutOf(e.reps, x), {Rep}) \/ Cardinality(LabelSet(OutOf(e.reps, x), Rep)) # e.R THEN {"replicate-frame"}
  ELSE IF \E out \in {e.se, e.lo, e.hi, e.p, e.sig} : OutKeys(out) # Keys(e) \/ \E x \in Keys(e) : ~FrameOK(e, x, OutOf(out, x), {}) THEN {"summary-frame"}
  ELSE (IF e.kind = "stationary" THEN JudgeEach(e) ELSE JudgeJoint(e))
       \cup JudgePoint(e)
       \cup UNION {UNION {JudgeStats(e, x, g) : g \in AsgsOf(e, x)} : x \in Keys(e)}

---------------------------------------------------------------------------
\* Replicates whose value spells the multiplicities of all units.
Digits(code, n) == [u \in 1..n |-> (code \div (n + 1) ^ (u - 1)) % (n + 1)]
RECURSIVE Pow4(_, _)
Pow4(q, k) == IF k = 0 THEN 10000 ELSE (Pow4(q, k - 1) * q) \div 10000
Sq(R) == ISqrt(R) + 1
JudgeCode(e) ==
  IF ~e.ok THEN {"raised"}
  ELSE IF \E r \in DOMAIN e.codes : ~IsNum(e.codes[r]) \/ e.codes[r] < 0 THEN {"replicate-not-a-resample"}
  ELSE
  LET n == NU(e) R == Len(e.codes)
      c == [r \in DOMAIN e.codes |-> Digits(e.codes[r], n)]
      tot == [u \in 1..n |-> SeqSum([r \in 1..R |-> c[r][u]])]
      whole(r) == \A u \in 1..n : c[r][u] = 1
      rises(r) == MapThenSumSet(LAMBDA u : MaxI(0, c[r][(u % n) + 1] - c[r][u]), 1..n)
      cells == MapThenSumSet(LAMBDA r : MapThenSumSet(LAMBDA u : c[r][u] * c[r][u], 1..n), 1..R)
      unbroken == Cardinality({r \in 1..R : whole(r)})
  IN Fail("number-drawn", \A r \in 1..R : SeqSum(c[r]) = n)
     \cup Fail("clusters-taken-whole", \A r \in 1..R : \A u, v \in 1..n : e.group[u] = e.group[v] => c[r][u] = c[r][v])
     \cup (IF e.kind = "stationary"
           THEN Fail("units-drawn-alike", \A u \in 1..n : Abs(tot[u] - R) <= 16 * Sq(R))
                \cup Fail("blocks-keep-order", 100 * MapThenSumSet(rises, 1..R) <= 100 * R + (10000 * R * (n - 1)) \div e.len + 800 * Sq(R))
                \cup Fail("block-length-short", e.len >= 100000000 => unbroken = R)
                \* a whole series needs no real break, or at least two (rare in long blocks)
                \cup (LET share == Pow4(10000 - (1000000 * (n - 1)) \div (e.len * n), n - 1)
                      IN Fail("block-length", (100 * n < e.len /\ e.len < 1000000) =>
                                /\ 1000 * unbroken >= R * (share \div 10) - 3000 * Sq(R)
                                /\ 1000 * unbroken <= R * (share \div 10 + 20) + 3000 * Sq(R)))
                \cup Fail("block-length-long", e.len <= 100 * n => 2 * unbroken <= R + 8 * Sq(R))
           ELSE LET G == NG(e) k == n \div G     \* equal clusters of k units
                IN Fail("units-drawn-alike", \A u \in 1..n : Abs(tot[u] - R) <= 8 * Sq(R))
                   \cup Fail("drawn-with-replacement", Abs(cells - R * k * (2 * G - 1)) <= 32 * k * Sq(R)))

---------------------------------------------------------------------------
\* Automatic block lengths: each value's own linearised series is used.
\* (Tangent series of the mean of one statistic, unweighted: deviations.)
JudgeAuto(e) ==
  IF ~e.ok THEN {"raised"}
  ELSE IF e.calls = <<>> THEN {}
  ELSE
  LET its == SetToSeq(Items(e))
      n == NU(e)
      dev(it) == [u \in 1..n |-> (1000 * it.parts[1].n[u]) - Value("mean", <<Dot(it.parts[1].n, Ones(n))>>, <<n>>)]
      fits(call, it) == Len(call.series) = n /\ \A u \in 1..n : Abs(call.series[u] - dev(it)[u]) <= 3
      mine(it) == {k \in DOMAIN e.calls : fits(e.calls[k], it)}
  IN Fail("series-of-each-value", \A i \in DOMAIN its : mine(its[i]) # {})
     \cup Fail("block-length-of-own-series",
               \A i \in DOMAIN its : LET ks == mine(its[i]) IN
                 /\ (ks # {} /\ \A k \in ks : e.calls[k].long) => \A r \in 1..e.R : Meets(its[i].obs[r], ValueAt("mean", its[i].parts, Ones(n)), Tol)
                 /\ (ks # {} /\ \A k \in ks : ~e.calls[k].long) => Cardinality({its[i].obs[r] : r \in 1..e.R}) > 1)

\* Units that differ between statistics: refused, or matched by label.
JudgeMismatch(e) == Fail("mismatched-units-accepted", ~e.ok)

Judge(e) == CASE e.op = "boot" -> JudgeBoot(e)
              [] e.op = "code" -> JudgeCode(e)
              [] e.op = "auto" -> JudgeAuto(e)
              [] e.op = "mismatch" -> JudgeMismatch(e)

TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET b == Judge(Trace[l])
            IN IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson(<<l, SetToSeq(b)>>))
         /\ IF l = Len(Trace) THEN PrintT("DONE " \o ToJson(l)) ELSE TRUE
TSpec == TInit /\ [][TNext]_l
=============================================================================
